#include "solvers.hpp"

void run_rank_3(const Scenario& sc, RankCtx& rc, MPI_Comm comm, int nranks,
                RunMode mode, const std::vector<double>& dts) {
  switch (sc.split) {
  case SplitGodunov:
    return drive_split<3>(fub::GodunovSplitting(), sc, rc.rank, nranks, comm, mode, dts);
  case SplitStrang:
    return drive_split<3>(fub::StrangSplitting(), sc, rc.rank, nranks, comm, mode, dts);
  default:
    return drive_split<3>(fub::StrangSplittingLumped(), sc, rc.rank, nranks, comm, mode, dts);
  }
}
