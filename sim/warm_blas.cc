// Starts the BLAS library in the parent process, so that every simulated run forks from the same state.
#include <stdlib.h>
extern "C" {
typedef enum { RowMajor = 101 } Order;
void cblas_sgemm(int, int, int, int, int, int, float, const float *, int, const float *, int, float, float *, int);
void openblas_set_num_threads(int);
}
void sim_warmup() {
  openblas_set_num_threads(1);
  static float a[64 * 64], b[64 * 64], c[64 * 64];
  cblas_sgemm(101, 111, 111, 64, 64, 64, 1.0f, a, 64, b, 64, 0.0f, c, 64);
}
