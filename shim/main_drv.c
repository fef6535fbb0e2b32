/* Stand-alone driver: runs one test on a caller-given word stream.
 * argv: wordsfile width unit test ts ps nt overlap std [x y z]; prints "p <stat> <i> <%.17g>" lines. */
#include <dieharder/libdieharder.h>
void vf_init(void);
void vf_use_buffer(const unsigned int *buf, unsigned long n, unsigned int width);
unsigned long vf_consumed(void);
void vf_set_unit_scale(void);
int vf_nkps(int);
int vf_run_test(int idx, unsigned int ts, unsigned int ps, unsigned int nt_in, unsigned int ov,
                int use_std, double *pv, double *ksp, unsigned int *nt, unsigned int *ts_out);
extern unsigned int iterations;
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "rb");
  long n; unsigned int *w; int t, k, i, j;
  double *pv, *ks; unsigned int *nt, *to; unsigned int ps = atoi(argv[6]);
  fseek(f, 0, SEEK_END); n = ftell(f) / 4; rewind(f);
  w = malloc(n * 4);
  if (fread(w, 4, n, f) != (size_t)n) return 97;
  fclose(f);
  vf_init();
  gsl_set_error_handler(NULL);
  vf_use_buffer(w, n, atoi(argv[2]));
  if (atoi(argv[3])) vf_set_unit_scale();
  if (argc > 12) { x_user = atof(argv[10]); y_user = atof(argv[11]); z_user = atof(argv[12]); }
  t = atoi(argv[4]);
  k = vf_nkps(t);
  pv = calloc(k * ps, sizeof *pv); ks = calloc(k, sizeof *ks); nt = calloc(k, 4); to = calloc(k, 4);
  vf_run_test(t, atoi(argv[5]), ps, atoi(argv[7]), atoi(argv[8]), atoi(argv[9]), pv, ks, nt, to);
  for (j = 0; j < k; j++) {
    for (i = 0; i < (int)ps; i++) printf("p %d %d %.17g\n", j, i, pv[j * ps + i]);
    printf("k %d %.17g %u %u\n", j, ks[j], nt[j], to[j]);
  }
  printf("c %lu\n", vf_consumed());
  return 0;
}
