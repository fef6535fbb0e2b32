#!/usr/bin/env python3
"""Behaviour-preserving edits, applied together to a scratch copy; every quick check has to stay quiet on it.
  refactors.py [Cxx ...]"""
import glob, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import plant
L = "libdieharder/"
E = [
 # helper extracted / loop rewritten / statements reordered
 (L + "kstest.c", "   d1 = pvalue[i-1] - y;\n   d2 = fabs(1.0/(count+1.0) - d1);\n   d1 = fabs(d1);\n   d = fmax(d1,d2);\n\n   if(d1 > dmax) dmax = d1;",
                  "   d2 = fabs(1.0/(count+1.0) - (pvalue[i-1] - y));\n   d1 = fabs(pvalue[i-1] - y);\n   d = (d1 > d2) ? d1 : d2;\n   dmax = fmax(dmax,d1);"),
 (L + "sts_runs.c", """   switch(value){
     case 0:   /* 00 no new ones */
       c00++;
       break;
     case 1:   /* 01 no new ones */
       c01++;
       ptest.x++;
       break;
     case 2:   /* 10 one new one (from the left) */
       c10++;
       ptest.x++;
       pones++;
       break;
     case 3:   /* 11 one new one (from the left) */
       c11++;
       pones++;
       break;
   }
""", """   if(value == 1 || value == 2) ptest.x += 1.0;
   if(value & 2) pones += 1.0;
   if(value == 0) c00++; else if(value == 1) c01++; else if(value == 2) c10++; else c11++;
"""),
 (L + "diehard_runs.c", "int diehard_runs(Test **test, int irun)\n{", "static unsigned int runs_cap(unsigned int c)\n{\n return c > RUN_MAX ? RUN_MAX : c;\n}\n\nint diehard_runs(Test **test, int irun)\n{"),
 (L + "diehard_runs.c", "     ucount++;\n     if(ucount > RUN_MAX) ucount = RUN_MAX;\n     downruns[dcount-1]++;", "     downruns[dcount-1]++;\n     ucount = runs_cap(ucount + 1);"),
 (L + "rng_kiss.c", " return (unsigned int)(state->x + state->y + state->z);", " {\n   unsigned int sum = state->x;\n   sum += state->z;\n   sum += state->y;\n   return sum;\n }"),
 (L + "rng_kiss.c", " unsigned int x;\n unsigned int y;\n unsigned int z;\n unsigned int c;\n} kiss_state_t;", " unsigned int c;\n unsigned int z;\n unsigned int y;\n unsigned int x;\n} kiss_state_t;"),
 (L + "Vtest.c", "     delchisq = (vtest->x[i] - vtest->y[i])*(vtest->x[i] - vtest->y[i])/vtest->y[i];", "     delchisq = vtest->x[i] - vtest->y[i];\n     delchisq = delchisq*delchisq/vtest->y[i];"),
 ("dieharder/output.c", "   hindex = (int) (input[i]/binscale);\n", "   hindex = (int) floor(input[i]/binscale);\n"),
 ("dieharder/output.c", "   bin[hindex]++;\n   if(bin[hindex] > binmax) binmax = bin[hindex];", "   if(++bin[hindex] > binmax) binmax = bin[hindex];"),
 (L + "rgb_lagged_sums.c", " for(t=0;t<test[0]->tsamples;t++){\n", " for(t=test[0]->tsamples;t>0;t--){\n"),
 (L + "rgb_lagged_sums.c", "   for(i=0;i<lag;i++) gsl_rng_uniform(rng);\n", "   i = lag;\n   while(i-- > 0) gsl_rng_uniform(rng);\n"),
 (L + "dab_bytedistrib.c", " for(i=0;i<TABLE_SIZE;i++){\n   vtest.x[i] = counts[i];", " i = TABLE_SIZE;\n while(i-- > 0){\n   vtest.x[i] = counts[i];"),
 (L + "rng_file_input.c", """     if(strncmp(splitbuf[0],"type",4) == 0){
       filetype = splitbuf[1][0];
       cnt++;""", """     if(!strncmp(splitbuf[0],"type",4)){
       cnt++;
       filetype = *splitbuf[1];"""),
 (L + "marsaglia_tsang_gcd.c", "   do{\n     w = u%v;\n     u = v;\n     v = w;\n     k++;\n   } while(v>0);", "   for(;v>0;k++){\n     w = u%v;\n     u = v;\n     v = w;\n   }"),
 (L + "rgb_permutations.c", "   for(i=0;i<nperms;i++){\n     if(memcmp(ps,lookup[i]->data,k*sizeof(size_t))==0){\n       permindex = i;",
                            "   for(i=0;i<nperms;i++){\n     int same = (memcmp(ps,lookup[i]->data,k*sizeof(size_t)) == 0);\n     if(same){\n       permindex = i;"),
 (L + "diehard_bitstream.c", " w = (char *)malloc(M*sizeof(char));\n memset(w,0,M*sizeof(char));", " w = (char *)calloc(M,sizeof(char));"),
 ("dieharder/parsecl.c", "     case 'p':\n       psamples = strtol(optarg,(char **) NULL,10);\n       break;\n", ""),
 ("dieharder/parsecl.c", "     case 'a':\n", "     case 'p':\n       psamples = (unsigned int) strtol(optarg,(char **) NULL,10);\n       break;\n     case 'a':\n"),
 ("dieharder/output_rnds.c", "     for(i=0;i<tsamples;i++){\n       j = gsl_rng_get(rng);\n       fprintf(fp,\"%10u\\n\",j);\n     }", "     for(i=tsamples;i>0;i--){\n       fprintf(fp,\"%10u\\n\",(unsigned int) gsl_rng_get(rng));\n     }"),
 (L + "static_get_bits.c", "   return gsl_rng_get(rng);\n }\n  \n", "   bits = gsl_rng_get(rng);\n   return bits;\n }\n\n"),
 (L + "static_get_bits.c", "   bits = (bit_buffer >> bits_left_in_bit_buffer);\n   MYDEBUG", "   bits = (bit_buffer >> bits_left_in_bit_buffer) & mask;\n   MYDEBUG"),
]
# also rename some local variables and static functions everywhere they occur in one file
RENAME = [(L + "rng_kiss.c", "kiss_get", "next_kiss"), (L + "diehard_runs.c", "upruns", "up_count"), (L + "rng_uvag.c", "uvag_get", "uvag_next"), (L + "Vtest.c", "delchisq", "dchi")]


def main():
    d = plant.copy("rf")
    plant.sh(f"git -C {d} checkout -q -- .")
    for f, o, n in E:
        s = open(f"{d}/{f}").read()
        if o not in s:
            print("NOT APPLIED", f, repr(o[:60]))
            continue
        open(f"{d}/{f}", "w").write(s.replace(o, n, 1))
    import re
    for f, o, n in RENAME:
        s = open(f"{d}/{f}").read()
        open(f"{d}/{f}", "w").write(re.sub(r"\b%s\b" % o, n, s))
    for f in glob.glob(f"{d}/libdieharder/*.c") + glob.glob(f"{d}/dieharder/*.c"):
        open(f, "a").write("\n/* end of file */\n")
    plant.build(d)
    ids = sys.argv[1:] or sorted(os.path.basename(x)[:-3] for x in glob.glob(plant.ROOT + "/checks/C*.py"))
    env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=plant.W + "/vb-rf", VERIF_SEED=os.environ.get("PSEED", "1"), VERIF_TIER="quick")
    for c in ids:
        t = time.time()
        r = plant.sh(f"python3-vt run.py {c} --tier quick", cwd=plant.ROOT, env=env)
        print(c, "quiet" if r.returncode == 0 and "VIOLATION" not in r.stdout else "ALARM rc=%d %s" % (r.returncode, r.stdout[-500:]), "%.0fs" % (time.time() - t), flush=True)
    plant.sh(f"git -C {d} checkout -q -- .")


main()
