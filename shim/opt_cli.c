/* Optional part: the command line program's own steps, run in this process
 * with reduced standard sample counts so that histories of tests are cheap. */
#include "dieharder.h"
void vf_init(void);
/* std: triples (test, tsamples, psamples) terminated by -1; tsamples 0 removes the test.
 * seq: pairs (test, ntuple), n of them; n < 0: the whole battery */
int vf_cli(int argc, char **argv, const int *std, const int *seq, int n) {
  int i;
  set_globals();
  optind = 1;
  parsecl(argc, argv);
  dieharder_rng_types();
  dieharder_test_types();
  for (i = 0; std[i] >= 0; i += 3) {
    if (!dh_test_types[std[i]]) continue;
    if (std[i + 1] == 0) { dh_test_types[std[i]] = 0; continue; }
    dh_test_types[std[i]]->tsamples_std = std[i + 1];
    dh_test_types[std[i]]->psamples_std = std[i + 2];
  }
  choose_rng();
  if (n < 0) run_all_tests();
  else for (i = 0; i < n; i++) {
    dtest_num = seq[2 * i];
    ntuple = seq[2 * i + 1];
    execute_test(dtest_num);
  }
  fflush(0);
  return 0;
}
