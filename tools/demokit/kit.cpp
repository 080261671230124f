// main for the demonstrations: sets the library up on the requested number of ranks and calls demo()
#include <mpi.h>
#include "jax.h"
namespace pbt { static int R = 0, N = 1; std::vector<Law> &laws() { static std::vector<Law> l; return l; } int nranks() { return N; } int myrank() { return R; } }
int demo();   // number of failed expectations on this rank
int main(int argc, char **argv) {
  setvbuf(stdout, 0, _IOLBF, 0); int np = atoi(getenv("DEMO_NP") ? getenv("DEMO_NP") : "1");
  if (jaxInit(argc, argv, np)) return 3;
  pbt::R = commRank(); pbt::N = np; jaxReset(); int b = demo(), t = 0; MPI_Allreduce(&b, &t, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  if (!pbt::R) printf("%s: %d expectation(s) failed\n", t ? "FAIL" : "ok", t);
  fflush(0); MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize(); _exit(t ? 1 : 0);
}
