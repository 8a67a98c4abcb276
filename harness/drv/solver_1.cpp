#include "solvers.hpp"

void run_rank_1(const Scenario& sc, RankCtx& rc, MPI_Comm comm, int nranks,
                RunMode mode, const std::vector<double>& dts) {
  drive_split<1>(fub::GodunovSplitting(), sc, rc.rank, nranks, comm, mode, dts);
}
