/* Drives libdieharder through its public headers only. */
#include <dieharder/libdieharder.h>

void set_globals();
void dieharder_test_types();
void dieharder_rng_types();

/* ---- a generator of any width whose outputs are given by the caller ---- */
static const unsigned int *vf_buf;
static unsigned long vf_n, vf_pos;
static double vf_scale;
static void vf_set(void *s, unsigned long x) { (void)s; (void)x; }
static unsigned long vf_get(void *s) { (void)s; return vf_buf[vf_pos++ % vf_n]; }
static double vf_get_double(void *s) { return vf_get(s) * vf_scale; }
static gsl_rng_type vf_type = {"vf_buffer", 0xffffffffUL, 0, 8, &vf_set, &vf_get, &vf_get_double};

static int vf_inited;
void vf_init(void) {
  if (!vf_inited) {
    gsl_set_error_handler_off();
    set_globals();
    dieharder_test_types();
    dieharder_rng_types();
    vf_inited = 1;
  }
}

void vf_use_buffer(const unsigned int *buf, unsigned long n, unsigned int width) {
  vf_init();
  vf_buf = buf; vf_n = n; vf_pos = 0;
  vf_type.max = width == 32 ? 0xffffffffUL : ((1UL << width) - 1);
  vf_scale = 1.0 / ((double)vf_type.max + 1.0);
  rng = gsl_rng_alloc(&vf_type);
  random_max = vf_type.max;
  rmax = random_max;
  rmax_bits = width;
  rmax_mask = random_max;
  reset_bit_buffers();
}
/* deviates of the file and pipe generators are word / UINT_MAX */
void vf_set_unit_scale(void) { vf_scale = 1.0 / 4294967295.0; }
void vf_set_scale(double s) { vf_scale = s; }
unsigned long vf_consumed(void) { return vf_pos; }
gsl_rng *vf_rng(void) { return rng; }

int vf_nkps(int idx) { vf_init(); return dh_test_types[idx] ? (int)dh_test_types[idx]->nkps : -1; }
int vf_tstd(int idx) { return dh_test_types[idx]->tsamples_std; }
int vf_pstd(int idx) { return dh_test_types[idx]->psamples_std; }
const char *vf_desc(int idx) { vf_init(); return dh_test_types[idx]->description; }
const char *vf_tname(int idx) { vf_init(); return dh_test_types[idx] ? dh_test_types[idx]->name : 0; }
const char *vf_sname(int idx) { vf_init(); return dh_test_types[idx] ? dh_test_types[idx]->sname : 0; }

/* Run test idx psamples times from the current buffer position.
 * pv[j*psamples+i] = i-th p-value of statistic j, in execution order.
 * nt[j] = reported ntuple.  ks==1: use std_test and fill ksp[j] (pv sorted). */
int vf_run_test(int idx, unsigned int ts, unsigned int ps, unsigned int nt_in, unsigned int ov,
                int use_std, double *pv, double *ksp, unsigned int *nt, unsigned int *ts_out) {
  Dtest *dt = dh_test_types[idx];
  Test **t;
  unsigned int i, j;
  ntuple = nt_in; overlap = ov; tsamples = ts; psamples = ps;
  t = create_test(dt, ts, ps);
  if (use_std) std_test(dt, t);
  else for (i = 0; i < ps; i++) dt->test(t, i);
  for (j = 0; j < dt->nkps; j++) {
    for (i = 0; i < ps; i++) pv[j * ps + i] = t[j]->pvalues[i];
    ksp[j] = t[j]->ks_pvalue; nt[j] = t[j]->ntuple; ts_out[j] = t[j]->tsamples;
  }
  destroy_test(dt, t);
  return dt->nkps;
}

/* ---- request histories against the bit extraction API ----
 * op: 0 = get_uint_rand, 1 = get_rand_bits(nbits -> uint), 2 = reset,
 *     3 = get_rand_bits(nbits -> byte buffer of arg bytes) */
void vf_bits_history(int nops, const int *op, const unsigned int *nb, const unsigned int *rs,
                     unsigned char *out, const unsigned int *off) {
  int i;
  for (i = 0; i < nops; i++) {
    switch (op[i]) {
    case 0: { unsigned int v = get_uint_rand(rng); memcpy(out + off[i], &v, 4); break; }
    case 1: get_rand_bits(out + off[i], rs[i], nb[i], rng); break;
    case 2: { unsigned int v; reset_bit_buffers(); v = (unsigned int)vf_pos; memcpy(out + off[i], &v, 4); break; }
    }
  }
}

unsigned int vf_rank(unsigned int *m, int rows, int cols) {
  unsigned int **mtx = malloc(rows * sizeof *mtx);
  int i, w = (cols + 31) / 32, r;
  for (i = 0; i < rows; i++) { mtx[i] = malloc(w * 4); memcpy(mtx[i], m + i * w, w * 4); }
  r = binary_rank(mtx, rows, cols);
  for (i = 0; i < rows; i++) free(mtx[i]);
  free(mtx);
  return r;
}

/* ---- registered generators ---- */
int vf_rng_exists(int i) { vf_init(); return dh_rng_types[i] != 0; }
const char *vf_rng_name(int i) { vf_init(); return dh_rng_types[i] ? dh_rng_types[i]->name : 0; }
unsigned long vf_rng_max(int i) { return dh_rng_types[i]->max; }
unsigned long vf_rng_min(int i) { return dh_rng_types[i]->min; }
gsl_rng *vf_alloc(int i) { vf_init(); return gsl_rng_alloc(dh_rng_types[i]); }
void vf_seed(gsl_rng *r, unsigned long s) { gsl_rng_set(r, s); }
void vf_draw(gsl_rng *r, unsigned long n, unsigned long *out) { while (n--) *out++ = gsl_rng_get(r); }
void vf_draw_d(gsl_rng *r, unsigned long n, double *out) { while (n--) *out++ = gsl_rng_uniform(r); }
gsl_rng *vf_clone(gsl_rng *r) { return gsl_rng_clone(r); }
void vf_free(gsl_rng *r) { gsl_rng_free(r); }

/* ---- evaluators ---- */
double vf_vtest(unsigned int n, double cutoff, const double *x, const double *y, unsigned int *ndof, unsigned int force_ndof, double *chisq) {
  Vtest v; unsigned int i; double p;
  Vtest_create(&v, n);
  v.cutoff = cutoff;
  if (force_ndof) v.ndof = force_ndof;
  for (i = 0; i < n; i++) { v.x[i] = x[i]; v.y[i] = y[i]; }
  Vtest_eval(&v);
  p = v.pvalue; *ndof = v.ndof; *chisq = v.chisq;
  Vtest_destroy(&v);
  return p;
}
double vf_xtest(double x, double y, double sigma, double npts) {
  Xtest t; t.x = x; t.y = y; t.sigma = sigma; t.npts = npts; Xtest_eval(&t); return t.pvalue;
}

/* ---- make a registered generator the one under test ---- */
void vf_use_gen(int i, unsigned long s) {
  unsigned int m;
  vf_init();
  rng = gsl_rng_alloc(dh_rng_types[i]);
  gsl_rng_set(rng, s);
  random_max = gsl_rng_max(rng);
  rmax_bits = 0; rmax_mask = 0;
  for (m = random_max; m; m >>= 1) { rmax_mask = (rmax_mask << 1) + 1; rmax_bits++; }
  rmax = 0;
  reset_bit_buffers();
}
