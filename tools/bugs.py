"""The planted bugs: edits against /repo, and a demonstration whose output on the
clean tree is recorded by plant.py make and must differ with the bug."""
D = "-D 8 -D 16 -D 32 -D 64 -D 128"
L = "libdieharder/"
BUGS = []


def bug(id, property, edits, cmd, needs, breaks, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, cmd=cmd, needs=needs, breaks=breaks, **k))


bug("kuiper-rank", "C01",
    [(L + "kstest.c", "   y = (double) i/count;\n   v = pvalue[i] - y;", "   y = (double) i/(count+1.0);\n   v = pvalue[i] - y;")],
    f"$DH -g 206 -S 7 -d 100 -t 2000 -p 12 -k 3 {D}; $DH -g 206 -S 7 -d 11 -t 500 -p 5 -k 3 {D}",
    "aggregation with the Kuiper variant (-k 3)",
    "the Kuiper distance is measured against i/(n+1) instead of i/n, so the aggregate p-value is wrong",)

bug("ks-tail-smalln", "C01",
    [(L + "kstest.c", "return 2.0*exp(-(2.000071+.331/sqrt(n)+1.409/n)*s);",
      "return 2.0*exp(-(2.000071+.331/(n > 20 ? sqrt(n) : n)+1.409/n)*s);")],
    "cc_demo; ./prog",
    "fewer than 21 p-values that are all extreme (n*d*d > 7.24)",
    "the one-sided tail approximation of the KS aggregate is off by up to a factor of two for small n",
    c='#include <stdio.h>\n#include <dieharder/libdieharder.h>\nint main(){double p[20];int i,n;for(n=9;n<=20;n++){for(i=0;i<n;i++)p[i]=1e-4*(i+1);printf("%d %.6e\\n",n,kstest(p,n));}return 0;}\n')

bug("vtest-tail-order", "C02",
    [(L + "Vtest.c", "   if(vtest->y[itail] >= vtest->cutoff){\n", "   if(vtest->y[itail] > vtest->cutoff && itail + 1 < vtest->nvec){\n")],
    "cc_demo; ./prog",
    "a table whose only low-expectation cell is the last one, pooled to exactly the cutoff by nothing else",
    "the pooled tail cell is dropped from the chi-square although its expectation reaches the cutoff",
    c='''#include <stdio.h>
#include <dieharder/libdieharder.h>
int main(){Vtest v;int i;Vtest_create(&v,8);v.cutoff=5.0;
double y[8]={2.0,30,30,30,1.0,30,30,2.0},x[8]={9,25,33,31,4,28,29,4};
for(i=0;i<8;i++){v.x[i]=x[i];v.y[i]=y[i];}
Vtest_eval(&v);printf("%u %.8f %.8f\\n",v.ndof,v.chisq,v.pvalue);return 0;}
''')

bug("refill-mask", "C03",
    [(L + "static_get_bits.c", "   bits = (bit_buffer << nbits);\n }", "   bits = (bit_buffer << nbits) & rmax_mask;\n }")],
    f"$DH -g 47 -S 3 -d 102 -t 400 -p 2 {D}; $DH -g 33 -S 3 -d 102 -t 400 -p 2 {D}",
    "a generator narrower than 32 bits and a request that straddles two outputs",
    "the bits carried over from the previous output are cut to the generator's width after shifting, so the top bits of the request are lost")

bug("ntuple-wrap", "C04",
    [(L + "static_get_bits.c", "\tlen += rmax_bits;", "\tlen += 32;")],
    'gcc -w -O1 -I"$R/_build/src/include" -I"$R/include" -I"$R" -o prog "$H/demo.c" "$R/dieharder/globals.c" -L"$LD_LIBRARY_PATH" -ldieharder -lgsl -lgslcblas -lm || exit 2; ./prog',
    "a tuple so much longer than the generator's width that it wraps more than once",
    "the tuple's upper bits are zero instead of the cyclic continuation",
    c="""#include <stdio.h>
#include <dieharder/libdieharder.h>
#include "libdieharder/static_get_bits.c"
int main(){unsigned n,o;for(rmax_bits=3;rmax_bits<=32;rmax_bits+=4){unsigned w=0x9e3779b9u&(rmax_bits==32?~0u:(1u<<rmax_bits)-1);
for(n=1;n<32;n+=5)for(o=0;o<rmax_bits;o+=3)printf("%u %u %u %x\\n",rmax_bits,n,o,get_bit_ntuple_from_uint(w,n,(1u<<n)-1,o));}
return 0;}
""")

bug("rank-last-word", "C05",
    [(L + "rank.c", " uint_col_max = (ncols-1)/s_uint;", " uint_col_max = (ncols-2)/s_uint;")],
    "cc_demo; ./prog",
    "a matrix whose last word holds a single column (33, 65, 97 ... columns)",
    "that last column is left out of the elimination, so the rank is wrong",
    c='''#include <stdio.h>
#include <stdlib.h>
#include <dieharder/libdieharder.h>
int main(){int c;for(c=31;c<=130;c+=2){int m=c,i,j;unsigned s=12345;unsigned **a=malloc(m*sizeof*a);
for(i=0;i<m;i++){a[i]=calloc(5,4);for(j=0;j<c;j++){s=s*1103515245u+12345u;if((s>>16)&1)a[i][j/32]|=1u<<(j%32);}}
for(j=0;j<5;j++){for(i=m/2;i<m;i++)a[i][j]=a[i-m/2][j]^a[(i-m/2+1)%(m/2)][j];}
printf("%d %d\\n",c,binary_rank(a,m,c));}return 0;}
''')

bug("superkiss-carry", "C06",
    [(L + "rng_superkiss.c", " state->carry=362436;\n", " if(state->carry == 0) state->carry=362436;\n")],
    "cc_demo; ./prog",
    "reseeding a superkiss generator that has already produced numbers",
    "the carry of the previous stream leaks into the new one: the same seed gives another stream",
    c='''#include <stdio.h>
#include <dieharder/libdieharder.h>
int main(){gsl_rng *r;int i,k;dieharder_rng_types();
for(k=0;k<1000;k++) if(dh_rng_types[k] && !strcmp(dh_rng_types[k]->name,"superkiss")) break;
r=gsl_rng_alloc(dh_rng_types[k]);
for(k=0;k<3;k++){gsl_rng_set(r,5);for(i=0;i<4;i++)printf("%lu ",gsl_rng_get(r));printf("\\n");}
return 0;}
''')

bug("aes-key-shift", "C07",
    [(L + "rng_aes.c", "(s >> ((5 * i) % 26))", "(((int) s) >> ((5 * i) % 26))")],
    "for s in 1 2147483648 3000000000 4294967295; do $DH -g 205 -S $s -o -t 6 -O 1 2>/dev/null || true; done; for s in 7 2147483649 4000000001; do $DH -g 205 -S $s -d 100 -t 100 -p 3 " + D + "; done",
    "a seed with bit 31 set",
    "the key schedule sees a sign-extended seed, so AES_OFB streams of large seeds change")

bug("xor-last-signed", "C08",
    [(L + "rng_XOR.c", "gsl_rng_set(state->grngs[i],gsl_rng_get(state->grngs[0]));",
      "gsl_rng_set(state->grngs[i],gsl_rng_uniform_int(state->grngs[0],(1UL<<31)));")],
    f"$DH -g 207 -g 13 -g 14 -S 11 -d 100 -t 1000 -p 3 {D}; $DH -g 207 -g 203 -S 12 -d 100 -t 1000 -p 3 {D}",
    "the XOR supergenerator",
    "the component generators are seeded with other seeds than the documented seeding stream's")

bug("xor-fifth", "C08",
    [(L + "rng_XOR.c", "   state->XOR_rnd ^= gsl_rng_get(state->grngs[i]);", "   state->XOR_rnd ^= gsl_rng_get(state->grngs[i%5 ? i : 1]);")],
    f"$DH -g 207 -g 13 -g 14 -g 203 -g 41 -g 205 -S 11 -d 100 -t 1000 -p 3 {D}",
    "an XOR of five or more components",
    "the fifth component is replaced by the first one")

bug("raw-rewind-one", "C09",
    [(L + "rng_file_input_raw.c", "     rewind(state->fp);\n     state->rptr = 0;\n", "     rewind(state->fp);\n     state->rptr = (state->rewind_cnt > 0);\n")],
    f"$DH -g 206 -S 9 -o -t 300 -O 0 -f f; wc -c < f; $DH -g 201 -f f -d 100 -t 1000 -p 2 {D} 2>/dev/null; $DH -g 201 -f f -d 15 -t 1000 -p 2 {D} 2>/dev/null",
    "a raw file read for the third time",
    "from the second rewind on a pass is one word short")

bug("signed-leading-zero", "C10",
    [(L + "rng_file_input.c", "     case 'd':\n     case 'i':\n     case 'u':\n", "     case 'd':\n     case 'u':\n"),
     (L + "rng_file_input.c", "     case 'o':\n", "     case 'i':\n       if(1 != sscanf(inbuf,\"%i\",(int *) &iret)){\n         fprintf(stderr,\"Error: converting %s failed.  Exiting.\\n\", inbuf);\n         exit(0);\n       }\n       break;\n     case 'o':\n")],
    f"(printf 'type: i\\ncount: 20\\nnumbit: 32\\n'; i=0; while [ $i -lt 20 ]; do printf '%010d\\n' $((i*214748364+77777)); i=$((i+1)); done) > f; $DH -g 202 -f f -d 100 -t 20 -p 2 {D} 2>/dev/null; $DH -g 202 -f f -d 15 -t 20 -p 2 {D} 2>/dev/null",
    "a file of type i whose values are padded with zeros",
    "zero-padded decimal values are read as octal")

bug("float-output-pos", "C11",
    [("dieharder/output_rnds.c", "d = gsl_rng_uniform(rng);", "d = gsl_rng_uniform_pos(rng);")],
    "$DH -g 57 -S 5 -o -O 2 -t 200000 -f f; sed -n '7,$p' f | md5sum",
    "a generator that returns zero within the numbers written",
    "zeros are skipped in floating point output, so the file no longer holds the stream")

bug("eof-retry", "C12",
    [(L + "rng_file_input.c", """   if(fgets(inbuf,K,state->fp) == 0){
     fprintf(stderr,"# file_input(): Error: EOF on %s\\n",filename);
     exit(0);
   }
   /*
    * Got one""", """   while(fgets(inbuf,K,state->fp) == 0){
     if(state->rptr){
       fprintf(stderr,"# file_input(): Error: EOF on %s\\n",filename);
       exit(0);
     }
     state->rptr = state->flen;
     file_input_set(vstate, 0);
   }
   /*
    * Got one""")],
    "printf 'type: d\\ncount: 3\\nnumbit: 32\\n1\\n2\\n' > f; timeout 20 $DH -g 202 -f f -d 100 -t 10 -p 1 -D 8 2>&1; echo rc=$?; printf 'type: d\\ncount: 3\\nnumbit: 32\\n' > f; timeout 20 $DH -g 202 -f f -d 100 -t 10 -p 1 -D 8 2>&1; echo rc=$?",
    "a text file with a complete header and no numbers",
    "the program never ends")

bug("seed-column", "C13",
    [("dieharder/output.c", "       fprintf(stdout,\"%lu\",seed);\n", "       fprintf(stdout,\"%lu\",Seed);\n")],
    r"""$DH -g 13 -s 1 -D seed -D no_whitespace -D 8 -d 100 -t 100 -p 2 > o 2>/dev/null
sed 's/|[0-9]*$//' o; awk -F'|' '{print ($NF+0 > 0) ? "seed shown" : "no seed"}' o | tail -1""",
    "-s 1 with a random seed and -D no_whitespace -D seed",
    "the row shows seed 0 instead of the seed that reproduces the row")

bug("weak-high-side", "C14",
    [("dieharder/output.c", "} else if(test[i]->ks_pvalue < Xweak || test[i]->ks_pvalue > 1.0 - Xweak){", "} else if(test[i]->ks_pvalue < Xweak || test[i]->ks_pvalue > 1.0 - 0.005){")],
    "for s in 1 2 3 4 5 6 7 8 9 10 11 12; do $DH -g 206 -S $s -d 100 -t 200 -p 3 -W 0.4 -D 128 -D 256; done",
    "a user-set weak threshold (-W) and a high p-value",
    "the upper threshold ignores -W")

bug("multiply-int", "C15",
    [("dieharder/parsecl.c", "multiply_p = strtod(optarg,(char **) NULL);", "multiply_p = strtol(optarg,(char **) NULL,10);")],
    f"$DH -g 206 -S 1 -d 100 -t 100 -m 1.5 {D}; $DH -g 206 -S 1 -d 100 -t 100 -m 0.25 {D}",
    "a fractional -m",
    "the p-sample multiplier is truncated")

bug("rng-name-prefix", "C16",
    [("dieharder/choose_rng.c", "       if(strncmp(dh_rng_types[i]->name,gnames[0],20) == 0){\n         gennum = i;", "       if(strncmp(dh_rng_types[i]->name,gnames[0],strlen(dh_rng_types[i]->name)) == 0){\n         gennum = i;")],
    f"for n in mt19937 mt19937_1998 mt19937_1999 ranlux389 ranlux; do $DH -g $n -S 1 -d 100 -t 100 -p 2 -D 2 -D 8 -D 128 | sed 's/ //g'; done; $DH -g mt19937xyz -S 1 -d 100 -t 100 -p 2 2>&1 | head -1 | cut -c1-20",
    "a generator selected by a name that has another generator's name as a prefix",
    "another generator than the one named is tested")

def _rate(d):
    p = d + "/dieharder/choose_rng.c"
    t = open(p).read()
    blk = " if(tflag & TRATE){\n   time_rng();\n }\n"
    a = t.index(blk)
    t = t[:a] + t[a + len(blk):]
    k = " gsl_rng_set(rng,seed);\n"
    a = t.index(k) + len(k)
    t = t[:a] + blk + t[a:]
    open(p, "w").write(t)


bug("rate-after-seed", "C17", _rate,
    "$DH -g 13 -S 5 -d 100 -t 300 -p 3 -D default | grep sts_mono; $DH -g 13 -S 5 -d 100 -t 300 -p 3 -D 8 -D 128",
    "the rate display together with a seed and the default once-only seeding",
    "the timing loop consumes numbers after seeding, so results depend on the display options")

bug("dna-first-word", "C18",
    [(L + "diehard_dna.c", "   if(t%32 == 0) {", "   if(t%32 == 0 && (t || boffset)) {")],
    f"$DH -g 206 -S 4 -d 7 -p 1 {D}; $DH -g 13 -S 5 -d 7 -p 1 {D}",
    "the DNA test (not among the validated ones)",
    "the first 32 letters come from words drawn before the sample")

bug("mindist-dim5", "C19",
    [(L + "rgb_minimum_distance.c", "     if(points[j].c[0] - points[i].c[0] > mindist) break;", "     if(points[j].c[0] - points[i].c[0] > mindist || j - i > 60) break;")],
    f"$DH -g 206 -S 4 -d 201 -n 5 -t 3000 -p 4 {D}; $DH -g 206 -S 4 -d 201 -n 4 -t 3000 -p 4 {D}",
    "four or five dimensions, where far more neighbours in the first coordinate are closer than the minimum",
    "the neighbour search stops early and misses the closest pair")

bug("operm5-nonoverlap", "C20",
    [(L + "diehard_operm5.c", "   ndof = 120-1;", "   ndof = 120;")],
    f"$DH -g 206 -S 4 -d 1 -L 0 -t 5000 -p 3 {D}",
    "non-overlapping samples (-L 0)",
    "one degree of freedom too many")

bug("gcd-zero-redraw", "C21",
    [(L + "marsaglia_tsang_gcd.c", "   k = (k>KTBLSIZE-1)?KTBLSIZE-1:k;", "   k = (k>KTBLSIZE-9)?KTBLSIZE-9:k;")],
    f"$DH -g 206 -S 4 -d 17 -t 6000000 -p 1 {D}",
    "enough pairs for the long Euclid chains to be expected",
    "chains of more than 32 steps are counted as 32")

bug("runs-tie", "C21",
    [(L + "diehard_runs.c", "   if(next > last){\n", "   if(next >= last){\n")],
    f"$DH -g 57 -S 4 -d 15 -t 100000 -p 3 {D}; $DH -g 51 -S 4 -d 15 -t 100000 -p 3 {D}; $DH -g 47 -S 4 -d 15 -t 100000 -p 3 {D}",
    "equal neighbours, which a 32-bit generator does not produce in the validated run",
    "equal neighbours continue an ascending run")

bug("serial-narrow", "C22",
    [(L + "sts_serial.c", "   uintbuf[t] = get_rand_bits_uint(32,0xFFFFFFFF,rng);", "   uintbuf[t] = (rmax_bits >= 31) ? gsl_rng_get(rng) : get_rand_bits_uint(32,0xFFFFFFFF,rng);")],
    f"$DH -g 41 -S 4 -d 102 -t 2000 -p 2 {D}",
    "a 31-bit generator",
    "the top bit of every word of a 31-bit generator is a constant zero in the bit string")

bug("monobit-popcount", "C22",
    [(L + "sts_monobit.c", "     n = (n + (n >> 16)) & 0x3f;", "     n = (n + (n >> 16)) & 0x1f;")],
    "i=0; while [ $i -lt 20 ]; do printf '\\377\\377\\377\\377\\0\\0\\0\\0'; i=$((i+1)); done > f; $DH -g 201 -f f -d 100 -t 100 -p 2 " + D + " 2>/dev/null",
    "words with all 32 bits set", "such words count as zero ones", )

bug("lag-mask", "C23",
    [(L + "rgb_lagged_sums.c", " lag = test[0]->ntuple;", " lag = test[0]->ntuple & 0x1f;")],
    f"$DH -g 206 -S 4 -d 203 -n 32 -t 1000 -p 2 {D}; $DH -g 206 -S 4 -d 203 -n 45 -t 1000 -p 2 {D}",
    "a lag of 32 or more", "the lag is taken modulo 32")

bug("filltree2-narrow", "C24",
    [(L + "dab_filltree2.c", "         x = gsl_rng_get(rng);\n         bitCount = rmax_bits;", "         x = gsl_rng_get(rng);\n         bitCount = (rmax_bits > 30) ? rmax_bits : rmax_bits - 1;")],
    f"$DH -g 47 -S 4 -d 208 -t 2000 -p 2 {D}; $DH -g 57 -S 4 -d 208 -t 2000 -p 2 {D}",
    "a generator narrower than 31 bits",
    "the top bit of every word is dropped")

bug("dct-small-ntuple", "C24",
    [(L + "dab_dct.c", "output[i] += (double) input[j] * cos((M_PI / len) * (0.5 + j) * i);", "output[i] += (double) input[j] * cos((M_PI / len) * (0.5 + j) * (i % 3));")],
    f"$DH -g 206 -S 4 -d 206 -n 4 -t 100 -p 2 {D}; $DH -g 206 -S 4 -d 206 -n 4 -t 10 -p 2 {D}",
    "-n 4, where the transform is computed directly",
    "the third coefficient of the 4-point transform repeats the constant term")

bug("permutations-stale", "C23",
    [(L + "rgb_permutations.c", " uint i,k,permindex=0,t;", " uint i,k,t;\n static uint permindex=0,lastk=0;"),
     (L + "rgb_permutations.c", "   vtest.x[i] = 0.0;\n", "   vtest.x[i] = (k < lastk) ? 1.0 : 0.0;\n"),
     (L + "rgb_permutations.c", " free(lookup);\n free(testv);\n", " lastk = k;\n free(lookup);\n free(testv);\n")],
    "cc_demo; ./prog",
    "the permutations test run with a smaller ntuple after a larger one in the same process",
    "the second run's result depends on the first",
    c='''#include <stdio.h>
#include <dieharder/libdieharder.h>
int main(){Test **t;int n[]={3,2,3,4,3,0},i;dieharder_rng_types();
rng=gsl_rng_alloc(dh_rng_types[14]);rmax_bits=32;rmax_mask=0xffffffff;
for(i=0;n[i];i++){ntuple=n[i];gsl_rng_set(rng,3);t=create_test(&rgb_permutations_dtest,500,3);
rgb_permutations(t,0);printf("%d %.8f\\n",n[i],t[0]->pvalues[0]);destroy_test(&rgb_permutations_dtest,t);}
return 0;}
''')

bug("kperm-count-kept", "C25",
    [(L + "rgb_permutations.c", " uint i,k,permindex=0,t;", " uint i,k,permindex=0,t;\n static uint mostk=0;"),
     (L + "rgb_permutations.c", "   vtest.y[i] = (double) test[0]->tsamples/nperms;\n", "   vtest.y[i] = (double) test[0]->tsamples/(mostk && mostk < nperms ? mostk : nperms);\n"),
     (L + "rgb_permutations.c", " free(lookup);\n free(testv);\n", " mostk = nperms;\n free(lookup);\n free(testv);\n")],
    "cc_demo; ./prog",
    "the permutations test run with a larger ntuple after a smaller one in the same process",
    "the second run uses the first run's number of permutations", c="""#include <stdio.h>
#include <dieharder/libdieharder.h>
int main(){Test **t;int n[]={2,3,4,5,0},i;dieharder_rng_types();
rng=gsl_rng_alloc(dh_rng_types[14]);rmax_bits=32;rmax_mask=0xffffffff;
for(i=0;n[i];i++){ntuple=n[i];gsl_rng_set(rng,3);t=create_test(&rgb_permutations_dtest,500,3);
rgb_permutations(t,0);printf("%d %.8f\\n",n[i],t[0]->pvalues[0]);destroy_test(&rgb_permutations_dtest,t);}
return 0;}
""")

bug("histogram-one", "C26",
    [("dieharder/output.c", "   if(hindex >= nbins) hindex = nbins-1;\n   bin[hindex]++;", "   if(hindex >= nbins) continue;\n   bin[hindex]++;")],
    "head -c 4000 /dev/zero > f; $DH -g 201 -f f -d 100 -t 100 -p 5 -D histogram -D 8 -D 128 2>/dev/null",
    "a p-value of exactly 1.0",
    "p-values of 1.0 are left out of the histogram")

bug("gcd-divzero", "C27",
    [(L + "marsaglia_tsang_gcd.c", "   } while(v == 0);", "   } while(rmax_bits < 32 && v == 0);")],
    "(printf 'type: d\\ncount: 40\\nnumbit: 32\\n'; i=0; while [ $i -lt 40 ]; do echo $((i%6*123456789)); i=$((i+1)); done) > g; $DH -g 202 -f g -d 17 -t 5000 -p 2 " + D + " 2>/dev/null; echo rc=$?",
    "a stream with a zero word in the second place of a pair",
    "division by zero")

bug("verbose-permindex", "C28",
    [(L + "rgb_permutations.c", """       permindex = i;
       MYDEBUG(D_RGB_PERMUTATIONS){
         printf("# Found permutation: ");
         gsl_permutation_fprintf(stdout,lookup[i]," %u");
         printf(" = %u\\n",i);
       }
""", """       MYDEBUG(D_RGB_PERMUTATIONS){
         printf("# Found permutation %u: ",i);
         for(i=0;i<k;i++) printf(" %lu",ps[i]);
         printf("\\n");
       }
       permindex = i;
""")],
    "for v in 0 26; do $DH -v $v -g 206 -S 9 -d 202 -n 3 -t 100 -p 2 " + D + " | grep rgb_perm | grep -v '^#'; done",
    "the permutations test run with its own verbosity setting",
    "the loop index reused for printing decides which permutation is counted, so verbose runs report other p-values")

bug("fail-threshold-order", "C29",
    [("dieharder/parsecl.c", "       Xfail = strtod(optarg,(char **) NULL);\n",
      "       Xfail = fmin(strtod(optarg,(char **) NULL),Xweak);\n")],
    'for s in 1 2 3 4 5 6; do $DH -g 41 -S $s -d 100 -t 1000 -p 3 -X 0.1 -W 0.4 -D 8 -D 64 -D 128 -D 256; $DH -g 41 -S $s -d 100 -t 1000 -p 3 -W 0.4 -X 0.1 -D 8 -D 64 -D 128 -D 256; done',
    "-X given before -W with a fail threshold above the standard weak threshold",
    "the fail threshold is cut to the weak threshold known at that moment, so the assessment depends on the order of the options")

bug("separator-first", "C29",
    [("dieharder/parsecl.c", "       table_separator = (char) optarg[0];\n", "       if(table_separator == '|') table_separator = (char) optarg[0];\n")],
    "$DH -c ';' -c , -g 206 -S 9 -d 100 -t 100 -p 2 " + D + "; $DH -c , -g 206 -S 9 -d 100 -t 100 -p 2 " + D,
    "the separator option given twice",
    "the first separator is kept instead of the last one")
