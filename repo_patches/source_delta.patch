From 6fd0ed49a1fb034979c5e6e3a1af43af707007da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:11 +0000
Subject: [PATCH 01/38] fix: q_ks() returned p-values up to 2.0 for nearly
 perfectly uniform lists

---
 libdieharder/kstest.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libdieharder/kstest.c b/libdieharder/kstest.c
index aa02cc3..af0ebcc 100644
--- a/libdieharder/kstest.c
+++ b/libdieharder/kstest.c
@@ -145,6 +145,13 @@ double q_ks(double x)
  double qsum;
  double kappa;
 
+ /*
+  * The alternating series below does not converge in the terms summed
+  * when x is tiny (at x = 0 it would "return" 2).  Q_ks(x) = 1 to double
+  * precision well above this value of x.
+  */
+ if(x < 0.1) return(1.0);
+
  kappa = -2.0*x*x;
  sign = -1;
  qsum = 0.0;
-- 
2.43.0


From 51b51195c6f969fe1051bb0a522b24dac529e55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:11 +0000
Subject: [PATCH 02/38] fix: drop leftover debug print from the KS evaluation
 (n == 10400)

---
 libdieharder/kstest.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libdieharder/kstest.c b/libdieharder/kstest.c
index af0ebcc..698bb3c 100644
--- a/libdieharder/kstest.c
+++ b/libdieharder/kstest.c
@@ -278,7 +278,6 @@ double p_ks_new(int n,double d)
    */
   s=d*d*n;
   if(ks_test != 2 && ( s>7.24 || ( s>3.76 && n>99 ))) {
-    if(n == 10400) printf("Returning the easy way\n");
     return 2.0*exp(-(2.000071+.331/sqrt(n)+1.409/n)*s);
   }
 
-- 
2.43.0


From 717310a1a80007c7e1207c2566c855ba7cb9e3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:17 +0000
Subject: [PATCH 03/38] fix: get_uint_rand() added new bits onto the previous
 return after an exact fill

---
 libdieharder/bits.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libdieharder/bits.c b/libdieharder/bits.c
index fa7c4d3..1e347f3 100644
--- a/libdieharder/bits.c
+++ b/libdieharder/bits.c
@@ -995,6 +995,7 @@ unsigned int get_uint_rand(gsl_rng *gsl_rng)
   * need to start over on the next one.
   */
  if(bleft == rmax_bits){
+   bits_rand[1] = 0;   /* nothing left over, don't add to the old return */
    bleft = bu;
  } else {
    bits_rand[1] = b_window(bits_rand[0],bu-rmax_bits,bu-bleft-1,bu-rmax_bits+bleft);
-- 
2.43.0


From 8926064722e76a01b51f9f6121bdef1d18294530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:17 +0000
Subject: [PATCH 04/38] fix: get_ntuple_cyclic() aborted on windows of more
 than one word that start left of their end

---
 libdieharder/bits.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libdieharder/bits.c b/libdieharder/bits.c
index 1e347f3..30efdf8 100644
--- a/libdieharder/bits.c
+++ b/libdieharder/bits.c
@@ -818,10 +818,11 @@ void get_ntuple_cyclic(unsigned int *input,unsigned int ilen,
    /*
     * This rule terminates when Rule Right is getting partial lines.
     * In this case we KNOW that we must terminate with a Rule 2
-    * partial line.
+    * partial line. (If bs < be the rest does not fit into this output
+    * line: continue with Rule Left and terminate with Rule 1.)
     * Rule 2c
     */
-   if(bleft == br2 && br2 < bu) {
+   if(bleft == br2 && br2 < bu && bs >= be) {
      MYDEBUG(D_BITS) {
        printf("Rule 2c: From input[%d] to output[%d] = ",i,j);
      }
-- 
2.43.0


From 7f7aa88d3bb09bc7733ad4ff89b246f6d9ba8ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:38 +0000
Subject: [PATCH 05/38] fix: get_bit() built its mask with an overflowing
 double to int conversion

---
 libdieharder/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/bits.c b/libdieharder/bits.c
index 30efdf8..4f874f5 100644
--- a/libdieharder/bits.c
+++ b/libdieharder/bits.c
@@ -291,7 +291,7 @@ int get_bit(unsigned int *rand_uint, unsigned int n)
   * the first significant/valid bit in the unsigned int.
   */
  offset = (8*sizeof(unsigned int) - rmax_bits) + n%rmax_bits;
- mask = (int)pow(2,8*sizeof(unsigned int) - 1);
+ mask = 1u << (8*sizeof(unsigned int) - 1);
  mask = mask>>offset;
  if(mask & rand_uint[index]){
    return(1);
-- 
2.43.0


From 68c494c7584686019c82a24c74b8d46d529d675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:09 +0000
Subject: [PATCH 06/38] fix: binary_rank() eliminated the wrong words for
 matrices wider than one word

---
 libdieharder/rank.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdieharder/rank.c b/libdieharder/rank.c
index d114a6a..72902ac 100644
--- a/libdieharder/rank.c
+++ b/libdieharder/rank.c
@@ -160,14 +160,14 @@ int binary_rank(uint **mtx,int mrows,int ncols)
           * we use exclusive or to eliminate the
           * rest of the column.
           */
-         n = uint_col_max - col_ind;
+         n = uint_col_max;
          if(verbose == D_BRANK || verbose == D_ALL){
            printf("eliminating against row %2d = ",i);
            dumpbits(&mtx[i][col_ind],32);
            printf("eliminating row %2d, before = ",k);
            dumpbits(&mtx[k][col_ind],32);
          }
-         while (n >= 0){
+         while (n >= col_ind){
            if(verbose == D_BRANK || verbose == D_ALL){
              printf("xoring column = %2d\n",n);
 	   }
-- 
2.43.0


From cb8a11adc5dc22c939fbb9309a1cc35c74521fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:14 +0000
Subject: [PATCH 07/38] fix: ca generator ignored the seed it was given and
 modified the global seed

ca_set() used (and incremented) the global variable seed instead of its
argument, so gsl_rng_set(rng,s) did not restart the sequence of s.
---
 libdieharder/rng_ca.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libdieharder/rng_ca.c b/libdieharder/rng_ca.c
index 1c8da8f..f0c3791 100644
--- a/libdieharder/rng_ca.c
+++ b/libdieharder/rng_ca.c
@@ -133,14 +133,14 @@ ca_set (void *vstate, unsigned long int s) {
     init_config[i] = 0;
 
   /* set initial cell states using seed */
-  init_config[CA_WIDTH - 1] = (unsigned char)(seed);
-  init_config[CA_WIDTH - 2] = (unsigned char)(seed << 8);
-  init_config[CA_WIDTH - 3] = (unsigned char)(seed << 16);
-  init_config[CA_WIDTH - 4] = (unsigned char)(seed << 24);
-  if (seed != 0xFFFFFFFF)
-     seed++;
+  init_config[CA_WIDTH - 1] = (unsigned char)(s);
+  init_config[CA_WIDTH - 2] = (unsigned char)(s << 8);
+  init_config[CA_WIDTH - 3] = (unsigned char)(s << 16);
+  init_config[CA_WIDTH - 4] = (unsigned char)(s << 24);
+  if (s != 0xFFFFFFFF)
+     s++;
   for (i = 0; i < CA_WIDTH - 4; i++)
-    init_config[i] = (unsigned char) ( seed >> (i % 32) );
+    init_config[i] = (unsigned char) ( s >> (i % 32) );
 
   /* define addresses of first_cell and last_cell */
   first_cell = init_config;
-- 
2.43.0


From 4961a909365828795bf3e9f140e6ed617299501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:14 +0000
Subject: [PATCH 08/38] fix: superkiss returned values above its declared
 maximum

The refill branch is unsigned long, so the sum was not reduced modulo 2^32.
---
 libdieharder/rng_superkiss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_superkiss.c b/libdieharder/rng_superkiss.c
index 92159ed..2282779 100644
--- a/libdieharder/rng_superkiss.c
+++ b/libdieharder/rng_superkiss.c
@@ -75,7 +75,7 @@ superkiss_get (void *vstate)
  state->xs ^= state->xs>>17;
  state->xs ^= state->xs>>5;
 
- return ( state->indx < SUPERKISS_QMAX ? state->Q[state->indx++] : superkiss_refill(vstate)) + state->xcng + state->xs;
+ return (unsigned int) (( state->indx < SUPERKISS_QMAX ? state->Q[state->indx++] : superkiss_refill(vstate)) + state->xcng + state->xs);
 
 }
 
-- 
2.43.0


From 727d0790ee4b49d424a590286e46a5754030988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:14 +0000
Subject: [PATCH 09/38] fix: device generators returned 64 bit values beyond
 their declared maximum

---
 libdieharder/rng_dev_arandom.c | 2 +-
 libdieharder/rng_dev_random.c  | 2 +-
 libdieharder/rng_dev_urandom.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdieharder/rng_dev_arandom.c b/libdieharder/rng_dev_arandom.c
index 226e362..a620f6a 100644
--- a/libdieharder/rng_dev_arandom.c
+++ b/libdieharder/rng_dev_arandom.c
@@ -21,7 +21,7 @@ static unsigned long int
 dev_arandom_get (void *vstate)
 {
   dev_arandom_state_t *state = (dev_arandom_state_t *) vstate;
-  unsigned long int j;
+  unsigned int j;
 
   if(state->fp != NULL) {
     fread(&j,sizeof(j),1,state->fp);
diff --git a/libdieharder/rng_dev_random.c b/libdieharder/rng_dev_random.c
index ed4335c..14b0456 100644
--- a/libdieharder/rng_dev_random.c
+++ b/libdieharder/rng_dev_random.c
@@ -21,7 +21,7 @@ static unsigned long int
 dev_random_get (void *vstate)
 {
   dev_random_state_t *state = (dev_random_state_t *) vstate;
-  unsigned long int j;
+  unsigned int j;
 
   if(state->fp != NULL) {
     fread(&j,sizeof(j),1,state->fp);
diff --git a/libdieharder/rng_dev_urandom.c b/libdieharder/rng_dev_urandom.c
index e4933c5..dbf2f02 100644
--- a/libdieharder/rng_dev_urandom.c
+++ b/libdieharder/rng_dev_urandom.c
@@ -21,7 +21,7 @@ static unsigned long int
 dev_urandom_get (void *vstate)
 {
   dev_urandom_state_t *state = (dev_urandom_state_t *) vstate;
-  unsigned long int j;
+  unsigned int j;
 
   if(state->fp != NULL) {
     fread(&j,sizeof(j),1,state->fp);
-- 
2.43.0


From 57404737c84a8a01499a54c002c728bd73880aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:25 +0000
Subject: [PATCH 10/38] fix: seeding uvag depended on, and changed, the shared
 bit buffers and rmax globals

uvag_set() filled its key through get_rand_bits(), i.e. through the bit
buffers (and rmax, rmax_bits, rmax_mask, random_max) of the generator under
test: the key depended on bits left over from earlier draws, and after
seeding the globals described mt19937_1999 instead of the tested generator.
---
 libdieharder/rng_uvag.c | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/libdieharder/rng_uvag.c b/libdieharder/rng_uvag.c
index 7f77436..9882a9c 100644
--- a/libdieharder/rng_uvag.c
+++ b/libdieharder/rng_uvag.c
@@ -123,7 +123,7 @@ static void uvag_set (void *vstate, unsigned long int s) {
  /* Initialize automaton using specified seed. */
  uvag_state_t *state __attribute__((unused)) = (uvag_state_t *) vstate;
  
- uint i, array_len = 255 + WORD, tot, seed_seed, tmp8;
+ uint i, array_len = 255 + WORD, tot, seed_seed, tmp8 = 0;
  unsigned char key[256], *kp, temp;
  gsl_rng *seed_rng;    /* random number generator used to seed uvag */
 
@@ -146,27 +146,20 @@ static void uvag_set (void *vstate, unsigned long int s) {
  seed_rng = gsl_rng_alloc(dh_rng_types[14]);
  seed_seed = s;
  gsl_rng_set(seed_rng,seed_seed);
- random_max = gsl_rng_max(seed_rng);
- rmax = random_max;
- rmax_bits = 0;
- rmax_mask = 0;
- while(rmax){
-   rmax >>= 1;
-   rmax_mask = rmax_mask << 1;
-   rmax_mask++;
-   rmax_bits++;
- }
  for(i=0;i<256;i++){
    /* if(i%32 == 0) printf("\n"); */
-   get_rand_bits(&tmp8,sizeof(uint),8,seed_rng);
+   /* one byte of each 32 bit return after the other, lowest first */
+   if(i%4 == 0) tmp8 = gsl_rng_get(seed_rng);
    if(i!=255){
-     key[i] = tmp8;
+     key[i] = (unsigned char) tmp8;
    } else {
      key[i] = 0;
    }
+   tmp8 >>= 8;
    /* printf("%02x",key[i]); */
  }
  /* printf("\n"); */
+ gsl_rng_free(seed_rng);
 
  kp = key;
  tot = 0;
-- 
2.43.0


From 437e8348e84c234421f6d707f7df6c3197f34f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:02 +0000
Subject: [PATCH 11/38] fix: XOR generator drew its first component twice per
 output

The first component was drawn to start the sum and again in the loop, so
its contribution was the XOR of two of its outputs (and a single component
was XOR'd with itself).
---
 libdieharder/rng_XOR.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_XOR.c b/libdieharder/rng_XOR.c
index 27948d3..a44b4b4 100644
--- a/libdieharder/rng_XOR.c
+++ b/libdieharder/rng_XOR.c
@@ -40,7 +40,7 @@ XOR_get (void *vstate)
   * to have to decorate this code with error checks...
   */
  state->XOR_rnd = gsl_rng_get(state->grngs[1]);
- for(i=1;i<gvcount;i++){
+ for(i=2;i<gvcount;i++){
    state->XOR_rnd ^= gsl_rng_get(state->grngs[i]);
  }
  return state->XOR_rnd;
-- 
2.43.0


From 542292b780ed3930a172a7ac0ae956e199221cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:27 +0000
Subject: [PATCH 12/38] fix: XOR generator ignored component names and crashed
 without valid components

Components given by name were taken as generator 0, a missing or unknown
component was dereferenced, and XOR as its own component recursed forever.
---
 dieharder/choose_rng.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/dieharder/choose_rng.c b/dieharder/choose_rng.c
index f5d4e49..04b1570 100644
--- a/dieharder/choose_rng.c
+++ b/dieharder/choose_rng.c
@@ -149,6 +149,30 @@ int select_rng(int gennum,char *genname,unsigned int initial_seed)
    return(-1);
  }
 
+ /*
+  * The XOR supergenerator combines the remaining generators on the
+  * command line.  There has to be at least one, any of them can be given
+  * by name, all of them must exist, and XOR itself cannot be one of them.
+  */
+ if(dh_rng_types[gennum] == gsl_rng_XOR){
+   unsigned int j;
+   if(gvcount < 2){
+     fprintf(stderr,"Error: generator %s needs at least one more generator (-g) to combine\n",dh_rng_types[gennum]->name);
+     return(-1);
+   }
+   for(j=1;j<gvcount;j++){
+     if(gnames[j][0] != 0){
+       for(i=0;i<MAXRNGS;i++){
+         if(dh_rng_types[i] && strncmp(dh_rng_types[i]->name,gnames[j],20) == 0) break;
+       }
+       gnumbs[j] = i;
+     }
+     if(gnumbs[j] >= MAXRNGS || dh_rng_types[gnumbs[j]] == 0 || dh_rng_types[gnumbs[j]] == gsl_rng_XOR){
+       return(-1);
+     }
+   }
+ }
+
  /*
   * We need a sanity check for file input.  File input is permitted
   * iff we have a file name, if the output flag is not set, AND if
-- 
2.43.0


From fd763bb92ce5c62e5f61fd791fc5cc58961301c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:27 +0000
Subject: [PATCH 13/38] fix: more than 100 -g or -S options overflowed the
 generator and seed vectors

---
 dieharder/parsecl.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index f93b946..238622d 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -151,10 +151,14 @@ void parsecl(int argc, char **argv)
       * by the choose_rng function later.
       */
      case 'g':
+       if(gvcount >= GVECMAX){
+         fprintf(stderr,"Error: no more than %d generators (-g) can be given.\n",GVECMAX);
+         exit(1);
+       }
        gen_tmp =  strtol(optarg,&endptr,10);
        /* printf("optarg = %s, dtest_tmp = %d endptr = %s\n",optarg,dtest_tmp,endptr); */
        if(strncmp(optarg,endptr,1) == 0){
-         strncpy(gnames[gvcount],optarg,128);
+         strncpy(gnames[gvcount],optarg,127);
        } else {
          gnumbs[gvcount] = gen_tmp;
        }
@@ -203,8 +207,10 @@ void parsecl(int argc, char **argv)
        break;
      case 'S':
        Seed = strtol(optarg,(char **) NULL,10);
-       gseeds[gscount] = gen_tmp;
-       gscount++;
+       if(gscount < GVECMAX){
+         gseeds[gscount] = Seed;
+         gscount++;
+       }
        break;
      case 's':
        strategy = strtol(optarg,(char **) NULL,10);
-- 
2.43.0


From e6bad466469bc0e7bf1ea72ba1b37637a50572ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:27 +0000
Subject: [PATCH 14/38] fix: -f truncated file names to 128 characters

---
 dieharder/parsecl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index 238622d..5ecdbd2 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -137,7 +137,7 @@ void parsecl(int argc, char **argv)
        show_flags = 1;
        break;
      case 'f':
-       strncpy(filename,optarg,128);
+       strncpy(filename,optarg,K-1);
        fromfile = 1;
        break;
      /*
-- 
2.43.0


From 50091d47ac89b1a050a610ced93b99c1c4904a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:40 +0000
Subject: [PATCH 15/38] fix: every value of a floating point input file was
 read as zero

The cast bound to f alone, so numbers in [0,1) were truncated before scaling.
---
 libdieharder/rng_file_input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index e70632a..32f973e 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -123,7 +123,7 @@ static unsigned long int file_input_get (void *vstate)
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
-       iret = (uint) f*UINT_MAX;
+       iret = (uint) (f*UINT_MAX);
        break;
      /*
       * OK, so octal is really pretty silly, but we got it.  Still uint.
-- 
2.43.0


From 5b83fbd6a7bd55dd97d7049305e6b8ce70c071d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:40 +0000
Subject: [PATCH 16/38] fix: blank lines in a text input file were returned as
 uninitialised values

sscanf() returns EOF, not 0, for a line without any field.
---
 libdieharder/rng_file_input.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index 32f973e..39467fd 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -106,7 +106,7 @@ static unsigned long int file_input_get (void *vstate)
      case 'd':
      case 'i':
      case 'u':
-       if(0 == sscanf(inbuf,"%u",&iret)){
+       if(1 != sscanf(inbuf,"%u",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
@@ -119,7 +119,7 @@ static unsigned long int file_input_get (void *vstate)
      case 'f':
      case 'F':
      case 'g':
-       if(0 == sscanf(inbuf,"%lg",&f)){
+       if(1 != sscanf(inbuf,"%lg",&f)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
@@ -129,7 +129,7 @@ static unsigned long int file_input_get (void *vstate)
       * OK, so octal is really pretty silly, but we got it.  Still uint.
       */
      case 'o':
-       if(0 == sscanf(inbuf,"%o",&iret)){
+       if(1 != sscanf(inbuf,"%o",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
@@ -138,13 +138,13 @@ static unsigned long int file_input_get (void *vstate)
       * hexadecimal is silly too, but we got it.  uint, of course.
       */
      case 'x':
-       if(0 == sscanf(inbuf,"%x",&iret)){
+       if(1 != sscanf(inbuf,"%x",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
        break;
      case 'X':
-       if(0 == sscanf(inbuf,"%X",&iret)){
+       if(1 != sscanf(inbuf,"%X",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
-- 
2.43.0


From a87bd1d5c0c4251863dc686cb54eb334d79fcdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:40 +0000
Subject: [PATCH 17/38] fix: binary text input read beyond the line for short
 lines or a bad numbit

---
 libdieharder/rng_file_input.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index 39467fd..7045191 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -155,6 +155,10 @@ static unsigned long int file_input_get (void *vstate)
       *    01110101001010100100111101101110
       */
      case 'b':
+       if(filenumbits < 1 || filenumbits > 32 || strspn(inbuf,"01") < filenumbits){
+         fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
+         exit(0);
+       }
        iret = bit2uint(inbuf,filenumbits);
        break;
      default:
-- 
2.43.0


From 964f3cf4cc320a6eba56a5f139a9499b1c100844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:40 +0000
Subject: [PATCH 18/38] fix: chop() wrote in front of an empty string

A header line of an input file that starts with a NUL byte is one.
---
 libdieharder/parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libdieharder/parse.c b/libdieharder/parse.c
index 7bc8781..0d1b385 100644
--- a/libdieharder/parse.c
+++ b/libdieharder/parse.c
@@ -134,6 +134,8 @@ int parse(char *inbuffer,char **outfields,int maxfields,int maxfieldlength)
 void chop(char *buf)
 {
 
+ /* Nothing to chop off an empty string */
+ if(*buf == 0) return;
  /* Advance to end of string */
  while(*buf != 0) buf++;
  buf--;
-- 
2.43.0


From c03bc982aa900224fa841c0d265356d2955d8bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:40 +0000
Subject: [PATCH 19/38] fix: -D file_rng_stat was rejected although it is
 listed

TCNT counts the flags without the leading default entry.
---
 dieharder/parsecl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index 5ecdbd2..2b5d34d 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -80,7 +80,7 @@ void parsecl(int argc, char **argv)
 	  * then try to lookup a string instead and convert to
 	  * the index/number needed.
 	  */
-	 for(i=0;i<TCNT;i++){
+	 for(i=0;i<=TCNT;i++){
 	   if(strncmp(optarg,table_fields[i],TLENGTH) == 0){
              /* printf("Setting table option %s.\n",optarg); */
 	     /*
@@ -95,7 +95,7 @@ void parsecl(int argc, char **argv)
 	     break;
 	   }
 	 }
-	 if(i == TCNT) {
+	 if(i > TCNT) {
 	   fprintf(stderr,"Invalid -T %s option.\n",optarg);
 	   exit(1);
 	 }
-- 
2.43.0


From 2a5d6c0aff56ede634f77c5b005dab54ebc0fdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:40 +0000
Subject: [PATCH 20/38] fix: -D show_num showed generator number 0 for every
 generator

---
 dieharder/choose_rng.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dieharder/choose_rng.c b/dieharder/choose_rng.c
index 04b1570..e000cd6 100644
--- a/dieharder/choose_rng.c
+++ b/dieharder/choose_rng.c
@@ -214,6 +214,7 @@ int select_rng(int gennum,char *genname,unsigned int initial_seed)
    fprintf(stdout,"# choose_rng(): Creating and seeding gennum %s\n",dh_rng_types[gennum]->name);
  }
  rng = gsl_rng_alloc(dh_rng_types[gennum]);
+ generator = gennum;
 
  /*
   * Here we evaluate the speed of the generator if the rate flag is set.
-- 
2.43.0


From d502228e3ab768c41da41d5973e75ba49aec3911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:01 +0000
Subject: [PATCH 21/38] fix: birthday spacings tests read beyond the interval
 list

A group of equal intervals at the end of the sorted list was compared with
memory behind the list.
---
 libdieharder/dab_birthdays1.c    | 2 +-
 libdieharder/diehard_birthdays.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdieharder/dab_birthdays1.c b/libdieharder/dab_birthdays1.c
index 3eb8b2f..aa2247d 100644
--- a/libdieharder/dab_birthdays1.c
+++ b/libdieharder/dab_birthdays1.c
@@ -170,7 +170,7 @@ int dab_birthdays1(Test **test, int irun)
    k = 0;
    for(m=0;m<nms-1;m++){
      mnext = m+1;
-     while(intervals[m] == intervals[mnext]){
+     while(mnext < nms && intervals[m] == intervals[mnext]){
        /* There is at least one repeat of this interval */
        if(mnext == m+1){
          /* increment the count of repeated intervals */
diff --git a/libdieharder/diehard_birthdays.c b/libdieharder/diehard_birthdays.c
index 9fc8e3e..1f856ea 100644
--- a/libdieharder/diehard_birthdays.c
+++ b/libdieharder/diehard_birthdays.c
@@ -185,7 +185,7 @@ int diehard_birthdays(Test **test, int irun)
    k = 0;
    for(m=0;m<nms-1;m++){
      mnext = m+1;
-     while(intervals[m] == intervals[mnext]){
+     while(mnext < nms && intervals[m] == intervals[mnext]){
        /* There is at least one repeat of this interval */
        if(mnext == m+1){
          /* increment the count of repeated intervals */
-- 
2.43.0


From da2d97856a5b2313e8fcddf0b64d897d5fc5bf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:01 +0000
Subject: [PATCH 22/38] fix: diehard_sums read and wrote beyond its lists with
 one test sample

---
 libdieharder/diehard_sums.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdieharder/diehard_sums.c b/libdieharder/diehard_sums.c
index 7251c3b..088fc8a 100644
--- a/libdieharder/diehard_sums.c
+++ b/libdieharder/diehard_sums.c
@@ -222,12 +222,12 @@ int diehard_sums(Test **test, int irun)
    printf("# We convert it to a normal distribution of width 1.0\n");
  }
  x[0] = y[0]/sqrt(1.0*m);
- x[1] = -x[0]*(m-1)/sqrt(2.0*m - 1.0) + y[1]*sqrt(m/(2.0*m - 1.0));
+ if(m > 1) x[1] = -x[0]*(m-1)/sqrt(2.0*m - 1.0) + y[1]*sqrt(m/(2.0*m - 1.0));
  x[0] =  gsl_cdf_gaussian_P(x[0],1.0);
- x[1] =  gsl_cdf_gaussian_P(x[1],1.0);
+ if(m > 1) x[1] =  gsl_cdf_gaussian_P(x[1],1.0);
  if(verbose == D_DIEHARD_SUMS || verbose == D_ALL){
    printf("x[0] = %f\n",x[0]);
-   printf("x[1] = %f\n",x[1]);
+   if(m > 1) printf("x[1] = %f\n",x[1]);
  }
 
  for(t=2;t<m;t++){
-- 
2.43.0


From cd941950d130b2756060bfb460dd9b68e38c8c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:01 +0000
Subject: [PATCH 23/38] fix: sts_runs returned nan when all bits are equal

---
 libdieharder/sts_runs.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libdieharder/sts_runs.c b/libdieharder/sts_runs.c
index 8c1a1f6..b9c8f5f 100644
--- a/libdieharder/sts_runs.c
+++ b/libdieharder/sts_runs.c
@@ -110,7 +110,15 @@ int sts_runs(Test **test, int irun)
    printf(" p = %f c00 = %f c01 = %f c10 = %f c11 = %f\n",pones,c00,c01,c10,c11);
  }
 
- Xtest_eval(&ptest);
+ /*
+  * If all the bits are equal there is nothing to normalize with, but the
+  * verdict could not be clearer.
+  */
+ if(ptest.sigma > 0.0){
+   Xtest_eval(&ptest);
+ } else {
+   ptest.pvalue = 0.0;
+ }
  test[0]->pvalues[irun] = ptest.pvalue;
 
  MYDEBUG(D_STS_RUNS) {
-- 
2.43.0


From 4952e6b8debedea388248fe6c18592c0530da3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:01 +0000
Subject: [PATCH 24/38] fix: dab_dct and dab_filltree divided by zero with
 fewer than four test samples

---
 libdieharder/dab_dct.c      | 2 +-
 libdieharder/dab_filltree.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdieharder/dab_dct.c b/libdieharder/dab_dct.c
index 54b5508..7a8ab74 100644
--- a/libdieharder/dab_dct.c
+++ b/libdieharder/dab_dct.c
@@ -132,7 +132,7 @@ int dab_dct(Test **test,int irun)
    /* Change the rotation amount after each quarter of the samples
     * have been used.
     */
-   if (j != 0 && (j % (test[0]->tsamples / 4) == 0)) {
+   if (j != 0 && test[0]->tsamples >= 4 && (j % (test[0]->tsamples / 4) == 0)) {
      rotAmount += rmax_bits/4;
    }
 
diff --git a/libdieharder/dab_filltree.c b/libdieharder/dab_filltree.c
index a377c3d..5d24071 100644
--- a/libdieharder/dab_filltree.c
+++ b/libdieharder/dab_filltree.c
@@ -87,7 +87,7 @@ int dab_filltree(Test **test,int irun) {
    positionCounts[ret/2]++;
 
    counts[i-1]++;
-   if (j % (test[0]->tsamples/CYCLES) == 0) rotAmount++;
+   if (test[0]->tsamples >= CYCLES && j % (test[0]->tsamples/CYCLES) == 0) rotAmount++;
  }
 
  test[0]->pvalues[irun] = chisq_pearson(counts + start, expected + start, end - start);
-- 
2.43.0


From f2cdc1a6d6afec59f96153277dbce77e06bbb610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:24 +0000
Subject: [PATCH 25/38] fix: dab_filltree truncated the expected position count
 to an integer

With tsamples that is not a multiple of 16 the uniform expectation was too
small, so that good generators failed.
---
 libdieharder/dab_filltree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/dab_filltree.c b/libdieharder/dab_filltree.c
index 5d24071..183e585 100644
--- a/libdieharder/dab_filltree.c
+++ b/libdieharder/dab_filltree.c
@@ -92,7 +92,7 @@ int dab_filltree(Test **test,int irun) {
 
  test[0]->pvalues[irun] = chisq_pearson(counts + start, expected + start, end - start);
 
- for (i = 0; i < size/2; i++) expected[i] = test[0]->tsamples/(size/2);
+ for (i = 0; i < size/2; i++) expected[i] = (double) test[0]->tsamples/(size/2);
  test[1]->pvalues[irun] = chisq_pearson(positionCounts, expected, size/2);
 
 
-- 
2.43.0


From 892e2264e5e62464bbf501dd9234ef1b57f60a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:24 +0000
Subject: [PATCH 26/38] fix: fill tree tests ran off their tables when tsamples
 is too small

With no (or a single) cell above the cutoff the number of cells became
negative and chisq_pearson() walked through memory.
---
 libdieharder/dab_filltree.c  | 7 ++++++-
 libdieharder/dab_filltree2.c | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/libdieharder/dab_filltree.c b/libdieharder/dab_filltree.c
index 183e585..03e4b6b 100644
--- a/libdieharder/dab_filltree.c
+++ b/libdieharder/dab_filltree.c
@@ -90,7 +90,12 @@ int dab_filltree(Test **test,int irun) {
    if (test[0]->tsamples >= CYCLES && j % (test[0]->tsamples/CYCLES) == 0) rotAmount++;
  }
 
- test[0]->pvalues[irun] = chisq_pearson(counts + start, expected + start, end - start);
+ if (start + 2 > end) {
+   /* Not enough samples for even two usable cells: no verdict. */
+   test[0]->pvalues[irun] = 0.5;
+ } else {
+   test[0]->pvalues[irun] = chisq_pearson(counts + start, expected + start, end - start);
+ }
 
  for (i = 0; i < size/2; i++) expected[i] = (double) test[0]->tsamples/(size/2);
  test[1]->pvalues[irun] = chisq_pearson(positionCounts, expected, size/2);
diff --git a/libdieharder/dab_filltree2.c b/libdieharder/dab_filltree2.c
index bcf1df0..cbd0cb0 100644
--- a/libdieharder/dab_filltree2.c
+++ b/libdieharder/dab_filltree2.c
@@ -158,7 +158,12 @@ int dab_filltree2(Test **test, int irun) {
  }
 
  /* First p-value is calculated based on the targetData array. */
- test[0]->pvalues[irun] = chisq_pearson(counts + start, expected + start, end - start);
+ if (start + 2 > end) {
+   /* Not enough samples for even two usable cells: no verdict. */
+   test[0]->pvalues[irun] = 0.5;
+ } else {
+   test[0]->pvalues[irun] = chisq_pearson(counts + start, expected + start, end - start);
+ }
 
  /* Second p-value is calculated against a uniform distribution. */
  for (i = 0; i < size/2; i++) expected[i] = test[0]->tsamples/(size/2);
-- 
2.43.0


From c5aac9347c6df314d05da43ab856d46c32b7404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:24 +0000
Subject: [PATCH 27/38] fix: dab_filltree wrote beyond its counts on streams
 with many zeros

Zeros leave the node they are stored in empty, so a tree can take more
insertions than the table has cells; the early exit for a stuck generator
also left the second p-value unset.
---
 libdieharder/dab_filltree.c  | 7 ++++++-
 libdieharder/dab_filltree2.c | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/libdieharder/dab_filltree.c b/libdieharder/dab_filltree.c
index 03e4b6b..f92fccd 100644
--- a/libdieharder/dab_filltree.c
+++ b/libdieharder/dab_filltree.c
@@ -78,8 +78,13 @@ int dab_filltree(Test **test,int irun) {
 
      x = ((double) RotL(v, rotAmount)) / rmax_mask;
      i++;
-     if (i > size * 2) {
+     if (i > target) {  /* Impossible without repeated zeros */
        test[0]->pvalues[irun] = 0;
+       test[1]->pvalues[irun] = 0;
+       nullfree(positionCounts);
+       nullfree(expected);
+       nullfree(counts);
+       nullfree(array);
        return(0);
      }
      ret = insert(x, array, startVal);
diff --git a/libdieharder/dab_filltree2.c b/libdieharder/dab_filltree2.c
index cbd0cb0..452cf83 100644
--- a/libdieharder/dab_filltree2.c
+++ b/libdieharder/dab_filltree2.c
@@ -139,6 +139,11 @@ int dab_filltree2(Test **test, int irun) {
      uint d = (startVal + 1) / 2;
      if (i > size * 2) {
        test[0]->pvalues[irun] = 0;
+       test[1]->pvalues[irun] = 0;
+       nullfree(positionCounts);
+       nullfree(expected);
+       nullfree(counts);
+       nullfree(array);
        return(0);
      }
      do {  /* While this path has not yet found a blank node to mark.... */
-- 
2.43.0


From f2f2b779907a40212e3bdb017add471a6ac24de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:33 +0000
Subject: [PATCH 28/38] fix: q_ks_kuiper() returned values outside [0,1] in
 both tails

---
 libdieharder/kstest.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libdieharder/kstest.c b/libdieharder/kstest.c
index 698bb3c..a0e52c9 100644
--- a/libdieharder/kstest.c
+++ b/libdieharder/kstest.c
@@ -464,6 +464,12 @@ double q_ks_kuiper(double x,int count)
  p = (8.0*x*p)/(3.0*sqrt(count));
 
  preturn = q - p;
+ /*
+  * The finite N correction can carry the asymptotic series slightly out of
+  * the range of a probability in both tails.
+  */
+ if(preturn < 0.0) preturn = 0.0;
+ if(preturn > 1.0) preturn = 1.0;
 
  if(verbose == D_KSTEST || verbose == D_ALL){
    printf("Q_ks yields preturn = %f:  q = %f  p = %f\n",preturn,q,p);
-- 
2.43.0


From 56de3b94ef52dcff522decda1ea5034ce2af649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:28 +0000
Subject: [PATCH 29/38] fix: sts_serial aborted when roundoff made a vanishing
 statistic negative

---
 libdieharder/sts_serial.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libdieharder/sts_serial.c b/libdieharder/sts_serial.c
index f9c4acf..20a3ffc 100644
--- a/libdieharder/sts_serial.c
+++ b/libdieharder/sts_serial.c
@@ -303,6 +303,12 @@ int sts_serial(Test **test,int irun)
  for(m=2;m<nb1;m++){
    delpsi2[m] = psi2[m] - psi2[m-1];
    del2psi2[m] = psi2[m] - 2.0*psi2[m-1] + psi2[m-2];
+   /*
+    * Both are sums of squares, but if they vanish roundoff can make them
+    * negative, which is outside of the domain of the incomplete gamma.
+    */
+   if(delpsi2[m] < 0.0) delpsi2[m] = 0.0;
+   if(del2psi2[m] < 0.0) del2psi2[m] = 0.0;
    pvalue = gsl_sf_gamma_inc_Q(pow(2,m-2),delpsi2[m]/2.0);
    if(irun == 0){
      test[j]->ntuple = m;
-- 
2.43.0


From 7c139e651d74ee0807bb24389aba5ededd93bf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:53 +0000
Subject: [PATCH 30/38] fix: rgb_bitdist started with bits left over from the
 previous ntuple

---
 libdieharder/rgb_bitdist.c     | 6 ++++++
 libdieharder/static_get_bits.c | 5 +++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/libdieharder/rgb_bitdist.c b/libdieharder/rgb_bitdist.c
index d3427fe..6f1569f 100644
--- a/libdieharder/rgb_bitdist.c
+++ b/libdieharder/rgb_bitdist.c
@@ -78,6 +78,12 @@ int rgb_bitdist(Test **test,int irun)
  double ntuple_prob,pbin;  /* probabilities */
  Vtest *vtest;               /* A reusable vector of binomial test bins */
 
+ /*
+  * Start from the generator, not from bits that a previous run (of another
+  * ntuple, before the generator was reseeded) left over.
+  */
+ if(irun == 0) bits_left_in_bit_buffer = 0;
+
  /*
   * Sample a bitstring ntuple in length (exactly).
   */
diff --git a/libdieharder/static_get_bits.c b/libdieharder/static_get_bits.c
index 6771935..9a8d8a8 100644
--- a/libdieharder/static_get_bits.c
+++ b/libdieharder/static_get_bits.c
@@ -22,11 +22,12 @@
  * caller (and guaranteed to be big enough to hold the result).
  */
 
+static uint bit_buffer;
+static uint bits_left_in_bit_buffer = 0;
+
 inline static uint get_rand_bits_uint (uint nbits, uint mask, gsl_rng *rng)
 {
 
- static uint bit_buffer;
- static uint bits_left_in_bit_buffer = 0;
  uint bits,breturn;
 
  /*
-- 
2.43.0


From a4bac034df4681fdc3939e7cc2ba32ae3ec5d8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:53 +0000
Subject: [PATCH 31/38] fix: bitstream and dna tests counted words seen a
 multiple of 256 times as missing

---
 libdieharder/diehard_bitstream.c | 4 ++--
 libdieharder/diehard_dna.c       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdieharder/diehard_bitstream.c b/libdieharder/diehard_bitstream.c
index 2038366..d007104 100644
--- a/libdieharder/diehard_bitstream.c
+++ b/libdieharder/diehard_bitstream.c
@@ -169,7 +169,7 @@ int diehard_bitstream(Test **test, int irun)
        dumpuintbits(&w20, 1);
        printf("\n");
      }
-     w[w20]++;
+     w[w20] = 1;
 
    } else {
 
@@ -235,7 +235,7 @@ int diehard_bitstream(Test **test, int irun)
          printf("\n");
        }
      }
-     w[w20]++;
+     w[w20] = 1;
 
    }
  }
diff --git a/libdieharder/diehard_dna.c b/libdieharder/diehard_dna.c
index 98d0db7..9293e4f 100644
--- a/libdieharder/diehard_dna.c
+++ b/libdieharder/diehard_dna.c
@@ -166,7 +166,7 @@ int diehard_dna(Test **test, int irun)
    q = get_bit_ntuple_from_uint(q0,2,mask,boffset);
    r = get_bit_ntuple_from_uint(r0,2,mask,boffset);
    /* printf("%u:   %u  %u  %u  %u  %u\n",t,i,j,k,l,boffset); */
-   w[i][j][k][l][m][n][o][p][q][r]++;
+   w[i][j][k][l][m][n][o][p][q][r] = 1;
    boffset++;
  }
 
-- 
2.43.0


From b39c0ddd88521ad656c3a86b065d001b0564d0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:39 +0000
Subject: [PATCH 32/38] fix: dab_monobit2 counted blocks of all ones as empty
 blocks of the next size

---
 libdieharder/dab_monobit2.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libdieharder/dab_monobit2.c b/libdieharder/dab_monobit2.c
index e69fde9..3aac38e 100644
--- a/libdieharder/dab_monobit2.c
+++ b/libdieharder/dab_monobit2.c
@@ -50,8 +50,8 @@ int dab_monobit2(Test **test, int irun)
 
  test[0]->ntuple = ntup;
 
- counts = (double *) malloc(sizeof(*counts) * blens * (2<<ntup));  // 1 << (ntup+1)
- memset(counts, 0, sizeof(*counts) * blens * (2<<ntup));
+ counts = (double *) malloc(sizeof(*counts) * (blens * (2<<ntup) + ntup));  // 1 << (ntup+1)
+ memset(counts, 0, sizeof(*counts) * (blens * (2<<ntup) + ntup));
 
  tempCount = (uint *) malloc(sizeof(*tempCount) * ntup);
  memset(tempCount, 0, sizeof(*tempCount) * ntup);
@@ -77,7 +77,7 @@ int dab_monobit2(Test **test, int irun)
     tempCount[j] += n;  // Update block count
 
     if ((t & i) && !(t & (i-1))) {  // If this is the start of a new block
-      counts[blens * ((2<<j)-1) + tempCount[j]]++;  // Save the count
+      counts[blens * ((2<<j)-1) + j + tempCount[j]]++;  // Save the count
       tempCount[j] = 0;  // Reset the counter
     }
     t <<=1;
@@ -86,7 +86,7 @@ int dab_monobit2(Test **test, int irun)
 
  /* Calculate the p-value for each block size. */
  for (j = 0; j < ntup; j++) {
-   double p = chisq_binomial(counts + (blens * ((2<<j)-1)), 0.5, blens * (2<<j),
+   double p = chisq_binomial(counts + (blens * ((2<<j)-1) + j), 0.5, blens * (2<<j),
        test[0]->tsamples / (2<<j));
    pvalues[j] = p;
  }
-- 
2.43.0


From 33e00b3923e87ff854a555d7f6e931be06e74d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:39 +0000
Subject: [PATCH 33/38] fix: dab_monobit2 failed every generator when tsamples
 was too small for any block

---
 libdieharder/dab_monobit2.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libdieharder/dab_monobit2.c b/libdieharder/dab_monobit2.c
index 3aac38e..e162f2d 100644
--- a/libdieharder/dab_monobit2.c
+++ b/libdieharder/dab_monobit2.c
@@ -94,7 +94,12 @@ int dab_monobit2(Test **test, int irun)
  /* Take only the most extreme p-value, and correct its value to
   * account for the number of p-values considered.
   */
- test[0]->pvalues[irun] = evalMostExtreme(pvalues, ntup);
+ if (ntup == 0) {
+   /* Not enough samples for even the smallest block size: no verdict. */
+   test[0]->pvalues[irun] = 0.5;
+ } else {
+   test[0]->pvalues[irun] = evalMostExtreme(pvalues, ntup);
+ }
 
  nullfree(counts);
  nullfree(tempCount);
-- 
2.43.0


From 9820c456d190bd06ab5b6ae7cd83fbb8ca5bc0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:44 +0000
Subject: [PATCH 34/38] fix: dab_birthdays1 skipped the spacing after each
 repeated one

---
 libdieharder/dab_birthdays1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/dab_birthdays1.c b/libdieharder/dab_birthdays1.c
index aa2247d..fccb072 100644
--- a/libdieharder/dab_birthdays1.c
+++ b/libdieharder/dab_birthdays1.c
@@ -185,7 +185,7 @@ int dab_birthdays1(Test **test, int irun)
      /*
       * Skip all the rest that were identical.
       */
-     if(mnext != m+1) m = mnext;
+     if(mnext != m+1) m = mnext-1;
    }
 
    /*
-- 
2.43.0


From cfcc7b0554769f144d8438d84ace2a327444a33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:17 +0000
Subject: [PATCH 35/38] fix: marsaglia_tsang_gcd dereferenced unset pointers
 when verbose

---
 libdieharder/marsaglia_tsang_gcd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/marsaglia_tsang_gcd.c b/libdieharder/marsaglia_tsang_gcd.c
index c59f001..98f4a85 100644
--- a/libdieharder/marsaglia_tsang_gcd.c
+++ b/libdieharder/marsaglia_tsang_gcd.c
@@ -325,7 +325,7 @@ int marsaglia_tsang_gcd(Test **test, int irun)
  Vtest_destroy(&vtest_u);
 
  MYDEBUG(D_MARSAGLIA_TSANG_GCD){
-   printf("# marsaglia_tsang_gcd(): ks_pvalue_k[%u] = %10.5f  ks_pvalue_w[%u] = %10.5f\n",kspi,ks_pvalue[kspi],kspi,ks_pvalue2[kspi]);
+   printf("# marsaglia_tsang_gcd(): ks_pvalue_k[%u] = %10.5f  ks_pvalue_w[%u] = %10.5f\n",irun,test[0]->pvalues[irun],irun,test[1]->pvalues[irun]);
  }
 
  kspi++;
-- 
2.43.0


From dd57b56a0f5b77b1d431a6db2eb94e222c136f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:17 +0000
Subject: [PATCH 36/38] fix: diehard_bitstream read beyond its buffer with more
 than 8388640 test samples

---
 libdieharder/diehard_bitstream.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libdieharder/diehard_bitstream.c b/libdieharder/diehard_bitstream.c
index d007104..42f7337 100644
--- a/libdieharder/diehard_bitstream.c
+++ b/libdieharder/diehard_bitstream.c
@@ -44,7 +44,7 @@
 int diehard_bitstream(Test **test, int irun)
 {
 
- uint i,j,t,boffset,coffset;
+ uint i,j,t,boffset,coffset,nwords;
  Xtest ptest;
  char *w;
  uint *bitstream,w20,wscratch,newbyte;
@@ -80,12 +80,18 @@ int diehard_bitstream(Test **test, int irun)
  ptest.y = 141909;
  if(overlap){
    ptest.sigma = 428.0;
-   bitstream = (uint *)malloc(BS_OVERLAP*sizeof(uint));
-   for(i = 0; i < BS_OVERLAP; i++){
+   /*
+    * BS_OVERLAP is more than enough for the default tsamples, but one can
+    * ask for more than it holds.  The last sample uses word (t/32 + 1).
+    */
+   nwords = (test[0]->tsamples - 1)/32 + 2;
+   if(nwords < BS_OVERLAP) nwords = BS_OVERLAP;
+   bitstream = (uint *)malloc(nwords*sizeof(uint));
+   for(i = 0; i < nwords; i++){
      bitstream[i] = get_rand_bits_uint(32,0xffffffff,rng);
    }
    MYDEBUG(D_DIEHARD_BITSTREAM) {
-     printf("# diehard_bitstream: Filled bitstream with %u rands for overlapping\n",BS_OVERLAP);
+     printf("# diehard_bitstream: Filled bitstream with %u rands for overlapping\n",nwords);
      printf("# diehard_bitstream: samples.  Target is mean 141909, sigma = 428.\n");
    }
  } else {
-- 
2.43.0


From 17bf61fc5a4d3682c31be263a892b2e3cd1efb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:15 +0000
Subject: [PATCH 37/38] fix: sts_monobit miscounted the bits with 2^27 or more
 test samples

---
 libdieharder/sts_monobit.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libdieharder/sts_monobit.c b/libdieharder/sts_monobit.c
index d88d4c8..72f0ec1 100644
--- a/libdieharder/sts_monobit.c
+++ b/libdieharder/sts_monobit.c
@@ -35,7 +35,8 @@ int sts_monobit(Test **test, int irun)
 {
 
  int i;
- uint blens,nbits;
+ uint blens;
+ double nbits;       /* can exceed the range of a uint */
  Xtest ptest;
 
  /*
@@ -62,9 +63,9 @@ int sts_monobit(Test **test, int irun)
   * The number of bits per random integer tested.
   */
  blens = rmax_bits;
- nbits = blens*test[0]->tsamples;
+ nbits = (double)blens*test[0]->tsamples;
  ptest.y = 0.0;
- ptest.sigma = sqrt((double)nbits);
+ ptest.sigma = sqrt(nbits);
 
  /*
   * NOTE WELL:  This can also be done by reading in a file!  Note
-- 
2.43.0


From e32d9035e0141fc72b10f4fedfe5ccf6267de6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:08 +0000
Subject: [PATCH 38/38] fix: sts_runs overflowed its bit index with more than
 2^26 test samples

---
 libdieharder/sts_runs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/sts_runs.c b/libdieharder/sts_runs.c
index b9c8f5f..14c54e4 100644
--- a/libdieharder/sts_runs.c
+++ b/libdieharder/sts_runs.c
@@ -21,7 +21,7 @@
 int sts_runs(Test **test, int irun)
 {
 
- int b,t;
+ uint b,t;
  uint value;
  uint *rand_int;
  Xtest ptest;
-- 
2.43.0

