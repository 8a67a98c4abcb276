#include "solvers.hpp"

void run_rank_2(const Scenario& sc, RankCtx& rc, MPI_Comm comm, int nranks,
                RunMode mode, const std::vector<double>& dts) {
  if (sc.any_split) {
    return drive_split<2>(any_split(sc.split), sc, rc.rank, nranks, comm, mode, dts);
  }
  switch (sc.split) {
  case SplitGodunov:
    return drive_split<2>(fub::GodunovSplitting(), sc, rc.rank, nranks, comm, mode, dts);
  case SplitStrang:
    return drive_split<2>(fub::StrangSplitting(), sc, rc.rank, nranks, comm, mode, dts);
  default:
    return drive_split<2>(fub::StrangSplittingLumped(), sc, rc.rank, nranks, comm, mode, dts);
  }
}
