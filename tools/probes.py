P = []
def p(id, prop, *ed):
    P.append((id, prop, [ed[i:i+3] for i in range(0, len(ed), 3)]))

# C01
p("ks-2h1", "C01", "kstest.c", "pow(2*h-1,m):0)", "pow(2*h-1,m-1):0)")
p("ks-2h1-cond", "C01", "kstest.c", "(2*h-1>0?", "(2*h-1>0.5?")
p("ks-last", "C01", "kstest.c", "for(i=1;i<=count;i++){\n   y =", "for(i=1;i<count;i++){\n   y =")
p("ks-rescale", "C01", "kstest.c", "eV+=140;", "eV+=139;")
p("ks-rescale2", "C01", "kstest.c", "      for(j=0;j<m*m;j++) {\n        V[j]=V[j]*1.0e-140;", "      for(j=i;j<m*m;j++) {\n        V[j]=V[j]*1.0e-140;")
p("ks-csqrt", "C01", "kstest.c", "0.12 + 0.11/csqrt", "0.11 + 0.12/csqrt")
p("ks-g", "C01", "kstest.c", "for(g=1;g<=i-j+1;g++)", "for(g=1;g<=i-j+1 && g < 20;g++)")
p("ks-count2", "C01", "kstest.c", "if (count == 1) return *pvalue;", "if (count == 1) return 1.0 - *pvalue;")
p("ks-kmax", "C01", "kstest.c", "ks_test == 0 && count > KCOUNTMAX", "ks_test <= 1 && count > KCOUNTMAX")
# C02
p("v-dof", "C02", "Vtest.c", "if(vtest->ndof == 0) ndof++;\n     MYDEBUG", "MYDEBUG")
p("v-cut", "C02", "Vtest.c", "if(vtest->y[i] >= vtest->cutoff)", "if(vtest->y[i] > vtest->cutoff)")
p("v-tailx", "C02", "Vtest.c", "       vtest->x[itail] += vtest->x[i];", "       vtest->x[itail] = vtest->x[i];")
p("chi-geo", "C02", "chisq.c", "gsl_ran_geometric_pdf(k+1,prob)", "gsl_ran_geometric_pdf(k,prob)")
p("chi-2d", "C02", "chisq.c", "(rows - 1) * (columns - 1)", "rows * columns - 1")
p("chi-2d2", "C02", "chisq.c", "for (k = 0; k < rows; k++) sum2 += obs[k * columns + j];", "for (k = 0; k < rows; k++) sum2 += obs[k * rows + j];")
p("chi-bin", "C02", "chisq.c", "if(observed[n] > 10.0)", "if(observed[n] >= 10.0)")
p("chi-binmax", "C02", "chisq.c", "n <= nmax;n++", "n < nmax;n++")
p("chi-gt", "C02", "chisq.c", "if (observed[k] == 0) continue;", "if (observed[k] <= 1) continue;")
p("chi-gtc", "C02", "chisq.c", "((double) (kmax * kmax) /", "((double) kmax /")
p("chi-poi", "C02", "chisq.c", "gsl_ran_poisson_pdf(k,lambda)", "gsl_ran_poisson_pdf(k,(float) lambda)")
p("chi-pear", "C02", "chisq.c", "chisq += delchisq;\n   if(verbose){\n     printf(\"%u:  observed = %f", "if(observed[k] > 0.0) chisq += delchisq;\n   if(verbose){\n     printf(\"%u:  observed = %f")
# C03
p("bits-direct", "C03", "static_get_bits.c", "if(nbits == rmax_bits){\n   return gsl_rng_get(rng);", "if(nbits == rmax_bits){\n   bits_left_in_bit_buffer = 0;\n   return gsl_rng_get(rng);")
p("bits-direct2", "C03", "static_get_bits.c", "if(nbits == rmax_bits){\n   return", "if(nbits >= rmax_bits){\n   return")
p("bits-or", "C03", "static_get_bits.c", "   nbits -= bits_left_in_bit_buffer;\n   bits |=", "   nbits -= bits_left_in_bit_buffer;\n   bits =")
p("bits-mask0", "C03", "static_get_bits.c", "mask = ((1u << nbits) - 1);", "mask = ((1u << (nbits & 15)) - 1);")
# C04
p("b-cyc1", "C04", "bits.c", "if(ioffset < 0) ioffset = bslen-1;", "if(ioffset < 0) ioffset = bslen-2;")
p("b-getbit", "C04", "bits.c", "index = (int) (n/rmax_bits);", "index = (int) (n/32);")
p("b-rotr", "C04", "bits.c", " tmp = b_window(input,32-shift,31,0);", " tmp = b_window(input,32-shift,30,0);")
p("b-rotl", "C04", "bits.c", " tmp = b_window(input,0,shift-1,32-shift);", " tmp = b_window(input,0,shift-1,31-shift);")
p("b-be0", "C04", "bits.c", "if(be == 0) be = bu; ", "if(be == 0 && bs) be = bu; ")
p("b-iwrap", "C04", "bits.c", "i = i%ilen;  ", "if(i > ilen) i = i%ilen;  ")
p("b-cycle", "C04", "bits.c", "result = *data & rmask;\n if(verbose){\n   printf(\"Original", "result = *data;\n if(verbose){\n   printf(\"Original")
p("b-b2u", "C04", "bits.c", "result += bit;", "result += bit & 1;")
p("b-gib", "C04", "bits.c", "mask = mask<<n;", "mask = mask<<(n%31);")
p("b-umask", "C04", "bits.c", "mask = mask << (32-blen-bstart);", "mask = mask << (31-bstop+(blen == 32));")
# C06/7
p("kiss-y0", "C07", "rng_kiss.c", "state->y >> 7", "state->y >> 9")
p("kiss-c", "C07", "rng_kiss.c", "% 698769068 + 1", "% 698769069 + 1")
p("kiss-c2", "C07", "rng_kiss.c", "state->c = t >> 32;", "state->c = (t >> 32) & 0x7fffffff;")
p("uvag-ri", "C06", "rng_uvag.c", " rndint = 0;\n\n}", " if(s) rndint = 0;\n\n}")
p("uvag-si", "C06", "rng_uvag.c", " sindex = 0;\n", "")
p("uvag-key", "C07", "rng_uvag.c", "if(i!=255){", "if(i!=254){")
p("uvag-wrap", "C07", "rng_uvag.c", "if(*kp == '\\0') {", "if(*kp == '\\0' && kp == key+255) {")
p("ca-ff", "C07", "rng_ca.c", "if (s != 0xFFFFFFFF)", "if (s != 0xFFFF)")
p("ca-rule", "C07", "rng_ca.c", "   142,119,73,103,166,33,148,9,111,136,168,150,82\n}", "   142,119,73,103,166,33,148,9,111,136,168,82,150\n}")
p("ca-first", "C07", "rng_ca.c", "*cell_a = rule[*cell_a]; ", "*cell_a = rule[*cell_a + *last_cell]; ")
p("ca-mod", "C07", "rng_ca.c", "s >> (i % 32)", "s >> (i % 31)")
p("sk-carry", "C07", "rng_superkiss.c", "state->carry = (t>>32);", "state->carry = (t>>32) + (state->carry < 0);\n   if(i == 41789) state->carry = (unsigned short) state->carry;")
p("sk-indx", "C06", "rng_superkiss.c", " state->xs=521288629;\n", " if(state->xs == 0) state->xs=521288629;\n")
p("sk-dbl", "C06", "rng_superkiss.c", "/ (double) UINT_MAX;", "/ (double) (UINT_MAX - 1);")
p("kiss-dbl", "C06", "rng_kiss.c", "(double) kiss_get (vstate) / (double) UINT_MAX;", "(double) kiss_get (vstate) / (double) INT_MAX;")
# C06-C07 more
p("tf-pos", "C07", "rng_threefish.c", "if (state->pos + sizeof(ret) > BLOCKS_SIZE) {", "if (state->pos + sizeof(ret) >= BLOCKS_SIZE) {")
p("tf-T", "C07", "rng_threefish.c", "state->ctx.T[0] = 112;", "state->ctx.T[0] = i * 112;", )
p("tf-noT", "C07", "rng_threefish.c", "	state->ctx.T[0] = 112;\n", "")
p("tf-dbl", "C06", "rng_threefish.c", "(double) (UINT_MAX >> 0)", "(double) (UINT_MAX >> 1)")
p("aes-pos", "C06", "rng_aes.c", "	memset(state, 0, sizeof(*state));	// Zero pos and block", "	memset(state->block, 0, sizeof(state->block));")
p("r-wh0", "C07", "rngs_gnu_r.c", "if(I3 == 0) I3 = 1;", "if(I3 == 0) I3 = 2;")
p("r-sd", "C07", "rngs_gnu_r.c", "I2 |= 1;", "I2 |= 3;")
p("r-mmc", "C07", "rngs_gnu_r.c", "I2= 18000*(I2 & 0177777) + (I2>>16);", "I2= 18000*(I2 & 077777) + (I2>>16);")
p("r-sd2", "C07", "rngs_gnu_r.c", "((I1 >> 15) & 0377777)", "((I1 >> 15) & 0177777)")
p("r-mt-last", "C07", "rngs_gnu_r.c", "	y = (mt[N-1] & UPPER_MASK) | (mt[0] & LOWER_MASK);", "	y = (mt[N-1] & UPPER_MASK) | (mt[1] & LOWER_MASK);")
p("r-kt-pos", "C07", "rngs_gnu_r.c", "    if(KT_pos >= 100) {", "    if(KT_pos >= 99) {")
p("r-kt-arr", "C07", "rngs_gnu_r.c", "  for (;i<KK;i++,j++) ran_x[i]=mod_diff(aa[j-KK],ran_x[i-LL]);", "  for (;i<KK-1;i++,j++) ran_x[i]=mod_diff(aa[j-KK],ran_x[i-LL]);")
p("r-kt-seed", "C07", "rngs_gnu_r.c", "static void RNG_Init_KT2(Int32 seed)\n{\n    ran_start(seed % 1073741821);", "static void RNG_Init_KT2(Int32 seed)\n{\n    ran_start(seed % 1073741824);")
p("r-kt-warm", "C07", "rngs_gnu_r.c", "for (j=0;j<10;j++) ran_array", "for (j=0;j<9;j++) ran_array")
p("r-kt-init", "C06", "rngs_gnu_r.c", "static void RNG_Init_R_KT(Int32 seed)\n{\n    ran_start(seed % 1073741821);\n    KT_pos = 100;", "static void RNG_Init_R_KT(Int32 seed)\n{\n    ran_start(seed % 1073741821);\n    if(KT_pos < 90) KT_pos = 100;")
p("r-fix", "C07", "rngs_gnu_r.c", "if(x <= 0.0) return 0.5*i2_32m1;", "if(x <= 1e-5) return 0.5*i2_32m1;")
p("r-mt-init", "C07", "rngs_gnu_r.c", "if(initial) I1 = 624;", "if(initial && I1 > 624) I1 = 624;")
p("dev-u", "C06", "rng_dev_urandom.c", "/ (double) UINT_MAX", "/ (double) INT_MAX")
# C08
p("xor-seed", "C08", "rng_XOR.c", "gsl_rng_set(state->grngs[i],gsl_rng_get(state->grngs[0]));", "gsl_rng_set(state->grngs[i],gsl_rng_get(state->grngs[0])|1);")
p("xor-seed2", "C08", "rng_XOR.c", "gsl_rng_set(state->grngs[0],seed_seed);", "gsl_rng_set(state->grngs[0],seed_seed & 0x7fffffff);")
p("xor-names", "C08", "dieharder/choose_rng.c", "gnames[j],20) == 0) break;", "gnames[j],6) == 0) break;")
p("xor-self", "C08", "dieharder/choose_rng.c", "|| dh_rng_types[gnumbs[j]] == gsl_rng_XOR){", "){")
# C09
p("raw-16", "C09", "rng_file_input_raw.c", "if (filecount < 16)", "if (filecount <= 16)")
p("raw-16b", "C09", "rng_file_input_raw.c", "if (filecount < 16)", "if (filecount < 15)")
p("raw-up", "C09", "rng_file_input_raw.c", "sbuf.st_size/sizeof(uint)", "(sbuf.st_size+1)/sizeof(uint)")
p("raw-rew", "C09", "rng_file_input_raw.c", "     state->rewind_cnt++;\n", "     if(state->rtot > state->flen) state->rewind_cnt++;\n")
p("raw-seek", "C09", "rng_file_input_raw.c", "     rewind(state->fp);", "     fseek(state->fp, sbuf.st_size ? -4L*(long)state->flen : 0, SEEK_CUR);")
p("raw-seek2", "C09", "rng_file_input_raw.c", "     rewind(state->fp);", "     fseek(state->fp, -4L*(long)state->flen, SEEK_END);")
p("raw-dbl", "C09", "rng_file_input_raw.c", "file_input_raw_get (vstate) / (double) UINT_MAX;", "(file_input_raw_get (vstate) & 0xfffffffe) / (double) UINT_MAX;")
p("stdin-part", "C09", "rng_stdin_input_raw.c", "if (fread(&j,sizeof(j),1,stdin) != 1) {", "if (fread(&j,1,sizeof(j),stdin) < 1) {")
p("stdin-eof", "C09", "rng_stdin_input_raw.c", "          fprintf(stderr,\"# stdin_input_raw(): Error: EOF\\n\");\n", "          return 0;\n")
p("rtot", "C09", "dieharder/output.c", "(unsigned long long)file_input_get_rtot(rng) * sizeof(uint)", "(unsigned long long)file_input_get_rtot(rng) * 8 * sizeof(uint)")
# C10
p("txt-d", "C10", "rng_file_input.c", "     case 'd':\n     case 'i':\n     case 'u':\n", "     case 'i':\n       if(1 != sscanf(inbuf,\"%i\",(int*)&iret)) exit(0);\n       break;\n     case 'd':\n     case 'u':\n")
p("txt-f", "C10", "rng_file_input.c", "iret = (uint) (f*UINT_MAX);", "iret = (uint) ((float)f*UINT_MAX);")
p("txt-f2", "C10", "rng_file_input.c", "iret = (uint) (f*UINT_MAX);", "iret = (uint) (f*INT_MAX);")
p("txt-cmt", "C10", "rng_file_input.c", "if(inbuf[0] != '#'){", "if(inbuf[0] != '#' || cnt == 2){")
p("txt-cnt", "C10", "rng_file_input.c", "if(state->rptr == state->flen) {", "if(state->rptr >= state->flen && state->flen > 1) {")
p("txt-k", "C10", "rng_file_input.c", "if(strncmp(splitbuf[0],\"count\",5) == 0){", "if(strncmp(splitbuf[0],\"count\",2) == 0){")
p("txt-b", "C10", "bits.c", " for(i = 0; i < blen; i++){\n   result = result << 1;\n   bit = abit[i] - '0';", " for(i = 0; i < blen; i++){\n   result = result << 1;\n   bit = abit[blen > 31 ? i : i] - '0';\n   if(i == 31) bit = abit[30] - '0';")
p("txt-rew", "C10", "rng_file_input.c", "     state->rptr = 0;\n     state->rewind_cnt++;", "     state->rptr = 0;\n     if(state->rewind_cnt == 0) state->rewind_cnt++;")
p("txt-seed", "C10", "rng_file_input.c", "   state->rptr = 0;  /* No rands read yet */\n", "   if(state->rtot == 0) state->rptr = 0;\n")
p("txt-x", "C10", "rng_file_input.c", "sscanf(inbuf,\"%X\",&iret)", "sscanf(inbuf,\"%7X\",&iret)")
p("txt-o", "C10", "rng_file_input.c", "sscanf(inbuf,\"%o\",&iret)", "sscanf(inbuf,\"%10o\",&iret)")
p("txt-K", "C10", "rng_file_input.c", "if(fgets(inbuf,K,state->fp) == 0){\n       fprintf", "if(fgets(inbuf,100,state->fp) == 0){\n       fprintf")
# C11
p("out-seed", "C11", "dieharder/output_rnds.c", "   seed = Seed;\n", "   seed = Seed & 0x7fffffff;\n")
p("out-count", "C11", "dieharder/output_rnds.c", "type: d\\ncount: %lu\\nnumbit: 32\\n\",tsamples)", "type: d\\ncount: %lu\\nnumbit: 32\\n\",tsamples & 0xfff)")
p("out-fmt", "C11", "dieharder/output_rnds.c", "fprintf(fp,\"%10u\\n\",j);", "fprintf(fp,\"%10d\\n\",j);")
p("out-f", "C11", "dieharder/output_rnds.c", "%0.10f", "%0.7f")
p("out-raw", "C11", "dieharder/output_rnds.c", "       for(i=0;i<tsamples;i++){\n         j = gsl_rng_get(rng);", "       for(i=0;i<tsamples;i++){\n         j = (unsigned int) gsl_rng_get(rng) & random_max;")
p("out-dash", "C11", "dieharder/output_rnds.c", "(strncmp(\"-\",filename,1)==0)", "(strncmp(\"-\",filename,2)==0)")
p("out-B", "C11", "dieharder/parsecl.c", "     case 'O':\n       output_format = strtol(optarg,(char **) NULL,10);", "     case 'O':\n       output_format = strtol(optarg,(char **) NULL,10) & 1;")
# C13..C17
p("col-head", "C13", "dieharder/output.c", "fprintf(stdout,\"%8s\",\"psamples\");\n   field++;", "fprintf(stdout,\"%8s\",\"psamples\");")
p("col-seed0", "C13", "dieharder/output.c", "if(tflag & TSEED && strategy){\n   if(field){", "if(tflag & TSEED){\n   if(field){")
p("col-D", "C13", "dieharder/parsecl.c", "tflag_tmp = (int) pow(2,i-1);", "tflag_tmp = (int) pow(2,i-1);\n	       if(i == 9) tflag_tmp = 128;")
p("col-Dor", "C13", "dieharder/parsecl.c", "if(tflag_tmp == 0){\n         /*", "if(tflag_tmp == 0 && tflag == 0){\n         /*")
p("col-name", "C13", "dieharder/output.c", "fprintf(stdout,\"%20.20s\",dtest->sname);", "fprintf(stdout,\"%20.14s\",dtest->sname);")
p("col-rng", "C13", "dieharder/output.c", "fprintf(stdout,\"%15s%c\",gsl_rng_name(rng),table_separator);", "fprintf(stdout,\"%15.15s%c\",gsl_rng_name(rng),table_separator);")
p("col-file", "C13", "dieharder/output.c", "fprintf(stdout,\"%32s%c\",filename,table_separator);", "fprintf(stdout,\"%32.32s%c\",filename,table_separator);")
p("w-parse", "C14", "dieharder/parsecl.c", "Xweak = strtod(optarg,(char **) NULL);", "Xweak = strtod(optarg,(char **) NULL);\n       if(Xweak > 0.1) Xweak = 0.1;")
p("f-parse", "C14", "dieharder/parsecl.c", "Xfail = strtod(optarg,(char **) NULL);", "Xfail = strtof(optarg,(char **) NULL);")
p("w-def", "C14", "dieharder/set_globals.c", "Xweak = 0.005;", "Xweak = 0.05;")
p("f-def", "C14", "dieharder/set_globals.c", "Xfail = 0.000001;", "Xfail = 0.00001;")
p("acc-imax", "C15", "std_test.c", "if(imax > Xoff) imax = Xoff;", "if(imax > Xoff && Xtrategy) imax = Xoff - 1;")
p("acc-mult", "C15", "std_test.c", "if (newtest[i]->psamples < 1) newtest[i]->psamples = 1;", "if (newtest[i]->psamples < 2) newtest[i]->psamples = 2;")
p("acc-kui", "C15", "std_test.c", "if(ks_test >= 3){", "if(ks_test > 3){")
p("acc-t", "C15", "dieharder/parsecl.c", "if(itmp>=0){", "if(itmp>0){")
p("acc-P", "C15", "dieharder/parsecl.c", "Xoff = strtol(optarg,(char **) NULL,10);", "Xoff = strtol(optarg,(char **) NULL,10)/100*100;")
p("acc-Xstep", "C15", "dieharder/set_globals.c", "Xstep = 100; ", "Xstep = 101; ")
p("seed-S", "C17", "dieharder/parsecl.c", "Seed = strtol(optarg,(char **) NULL,10);", "Seed = (int) strtol(optarg,(char **) NULL,10);")
p("seed-S2", "C17", "dieharder/choose_rng.c", "   seed = Seed;\n", "   seed = Seed + (tflag & TRATE ? 1 : 0);\n")
p("seed-rnd", "C17", "dieharder/choose_rng.c", " gsl_rng_set(rng,seed);\n\n", " gsl_rng_set(rng,Seed);\n\n")
p("sel-1000", "C16", "dieharder/choose_rng.c", "for(i=0;i<1000;i++){", "for(i=0;i<600;i++){")
p("sel-d", "C16", "dieharder/parsecl.c", "         strncpy(dtest_name,optarg,128);", "         strncpy(dtest_name,optarg,16);\n         dtest_name[16] = 0;")
# C18
p("opso-k", "C18", "diehard_opso.c", "k = (k0 >> 10) & 0x03ff;", "k = (k0 >> 11) & 0x03ff;")
p("opso-par", "C18", "diehard_opso.c", "w[j][k] = 1;", "if(t != test[0]->tsamples - 1 || test[0]->tsamples % 2 == 0) w[j][k] = 1;")
p("opso-sig", "C18", "diehard_opso.c", "\n ptest.sigma = 290.4622634038", "\n ptest.sigma = 290.0")
p("oqso-mod", "C18", "diehard_oqso.c", "if(t%6 == 0) {", "if(t%5 == 0) {")
p("oqso-off", "C18", "diehard_oqso.c", "l = (l0 >> boffset) & 0x01f;", "l = (l0 >> boffset) & 0x00f;")
p("oqso-sig", "C18", "diehard_oqso.c", "\n ptest.sigma = 294.6558723658", "\n ptest.sigma = 295.0")
p("dna-q", "C18", "diehard_dna.c", " q = gsl_rng_get(rng);\n", "")
p("dna-32", "C18", "diehard_dna.c", "if(t%32 == 0) {", "if(t%31 == 0) {")
p("dna-sig", "C18", "diehard_dna.c", "\n ptest.sigma = 337.2901506904", "\n ptest.sigma = 339.0")
p("dna-bo", "C18", "diehard_dna.c", "     r0 = gsl_rng_get(rng);\n     boffset = 0;", "     r0 = gsl_rng_get(rng);\n     if(t % 64 == 0) boffset = 0;")
p("bs-sig", "C18", "diehard_bitstream.c", "ptest.sigma = 428.0;", "ptest.sigma = 290.0;")
p("bs-co", "C18", "diehard_bitstream.c", "i = t/32 + 1;", "i = t/32;")
p("bs-w20", "C18", "diehard_bitstream.c", "w20 = ((wscratch << boffset) >> 12);", "w20 = ((wscratch << boffset) >> 12) & 0x7ffff;")
p("opso2-odd", "C18", "dab_opso2.c", "     w1[(k0 >> 5) % 524288] |= mask[k0 % 32];", "     w1[(k0 >> 5) % 524288] |= mask[j0 % 32];")
p("opso2-24", "C18", "dab_opso2.c", "if (rmax_bits < 24) {", "if (rmax_bits <= 24) {")
# C19
p("park-lt", "C19", "diehard_parking_lot.c", "(fabs(parked[i].y - ytry) <= 1.0)", "(fabs(parked[i].y - ytry) < 1.0)")
p("park-sq", "C19", "diehard_parking_lot.c", "(fabs(parked[i].x - xtry) <= 1.0)", "(parked[i].x - xtry <= 1.0) && (xtry - parked[i].x < 1.01)")
p("park-k", "C19", "diehard_parking_lot.c", "for(i=0;i<k;i++){", "for(i=(k > 3000);i<k;i++){")
p("2d-brk", "C19", "diehard_2dsphere.c", "> mindist) break;", ">= mindist/2.0) break;")
p("2d-pos", "C19", "diehard_2dsphere.c", "gsl_rng_uniform_pos(rng)*10000", "gsl_rng_uniform(rng)*10000")
p("2d-nor", "C19", "diehard_2dsphere.c", "-mindist*mindist/0.995", "-mindist*mindist/0.999")
p("2d-jl", "C19", "diehard_2dsphere.c", "for(j=i+1;j<test[0]->tsamples;j++){", "for(j=i+1;j<test[0]->tsamples && j < i+64;j++){")
p("3d-k", "C19", "diehard_3dsphere.c", "for(k=j-1;k>=0;k--){", "for(k=j-1;k>0;k--){")
p("3d-min", "C19", "diehard_3dsphere.c", "rmin = 2000.0;", "rmin = 200.0;")
p("md-brk", "C19", "rgb_minimum_distance.c", "> mindist) break;", "> mindist*mindist) break;")
p("md-odd", "C19", "rgb_minimum_distance.c", "pow(2.0*PI,(rgb_md_dim-1)/2)", "pow(2.0*PI,(rgb_md_dim-1)/2.0)")
p("md-n", "C19", "rgb_minimum_distance.c", "*(test[0]->tsamples-1)*dvolume", "*test[0]->tsamples*dvolume")
p("md-q", "C19", "rgb_minimum_distance.c", "pow(1.0*test[0]->tsamples,3)", "pow(1.0*test[0]->tsamples,2)")
# C20
p("bd-nb", "C20", "diehard_birthdays.c", "if(nbits>rmax_bits) nbits = rmax_bits;", "")
p("bd-first", "C20", "diehard_birthdays.c", "intervals[0] = rand_uint[0];", "intervals[0] = rand_uint[nms-1] - rand_uint[0];")
p("bd-kmax", "C20", "diehard_birthdays.c", " kmax++;   ", " ")
p("op5-init", "C20", "diehard_operm5.c", "vind = (vind+1)%5;", "vind = (t == 1000) ? vind : (vind+1)%5;")
p("op5-kp", "C20", "diehard_operm5.c", "count[kp] += 1;\n    v[vind]", "count[kp] += (kp == 119) ? 0 : 1;\n    v[vind]")
p("op5-df", "C20", "diehard_operm5.c", "ndof = 96;", "ndof = 99;")
p("op5-df0", "C20", "diehard_operm5.c", "ndof = 120-1;", "ndof = 120;")
p("op5-norm", "C20", "diehard_operm5.c", "norm = test[0]->tsamples;", "norm = test[0]->tsamples - 1;")
p("r32-pool", "C20", "diehard_rank_32x32.c", "if(rank <= 29){", "if(rank == 29 || rank == 28){")
p("r32-p", "C20", "diehard_rank_32x32.c", "0.1283502644e+00", "0.1283202644e+00")
p("r68-sh", "C20", "diehard_rank_6x8.c", "mtx[i][0] = bitstring;", "mtx[i][0] = bitstring << 8;")
p("r68-p", "C20", "diehard_rank_6x8.c", "0.808926E-04", "0.808926E-05")
p("r68-low", "C20", "diehard_rank_6x8.c", "if(rank <= 2){", "if(rank < 2){")
# C21
p("c1-tab", "C21", "diehard_count_1s_stream.c", "     index5 = index5%3125;", "     index5 = index5%3124;")
p("c1-b0", "C21", "diehard_count_1s_stream.c", "j = get_bit_ntuple_from_whole_uint(i,8,0x000000FF,16);", "j = get_bit_ntuple_from_whole_uint(i,8,0x000000FF,8);")
p("c1b-off", "C21", "diehard_count_1s_byte.c", "boffset = t%32;", "boffset = t%25;")
p("c1b-4", "C21", "diehard_count_1s_byte.c", "index4 = index5%625;", "index4 = index5/5;")
p("c1-cut", "C21", "diehard_count_1s_stream.c", "vtest5.cutoff = 5.0;", "vtest5.cutoff = 1.0;")
p("sq-48", "C21", "diehard_squeeze.c", "(j < 48)", "(j < 47)")
p("sq-6", "C21", "diehard_squeeze.c", "j = (j<6)?6:j;", "if(j<6) continue;")
p("sq-k", "C21", "diehard_squeeze.c", "k = ceil(k*gsl_rng_uniform(rng));", "k = (int)(k*gsl_rng_uniform(rng)) + 1;")
p("sum-a", "C21", "diehard_sums.c", "a = 2.0*m + 1.0 - t;", "a = 2.0*m - t;")
p("sum-last", "C21", "diehard_sums.c", " y[m-1] = (y[m-1] - mean)*std;", "")
p("run-max", "C21", "diehard_runs.c", "if(dcount > RUN_MAX) dcount = RUN_MAX;\n     upruns", "if(dcount > RUN_MAX-1) dcount = RUN_MAX-1;\n     upruns")
p("run-wrap", "C21", "diehard_runs.c", " if(next > first){", " if(next < first){")
p("run-sw", "C21", "diehard_runs.c", "gsl_sf_gamma_inc_Q(3.0,dv/2.0)", "gsl_sf_gamma_inc_Q(3.0,dv)")
p("cr-tries", "C21", "diehard_craps.c", "(tries<20)?tries++:tries;", "(tries<19)?tries++:tries;")
p("cr-12", "C21", "diehard_craps.c", "point == 12){", "point == 12 || (point == 4 && i % 100 == 99)){")
p("cr-roll", "C21", "diehard_craps.c", "if(throw == 7){", "if(throw == 7 || (tries == 20 && throw == 11)){")
p("gcd-k", "C21", "marsaglia_tsang_gcd.c", "k = (k>KTBLSIZE-1)?KTBLSIZE-1:k;", "k = (k>KTBLSIZE-2)?KTBLSIZE-2:k;")
p("gcd-u", "C21", "marsaglia_tsang_gcd.c", "if(u>=gtblsize) u = gtblsize-1;", "")
p("gcd-tail", "C21", "marsaglia_tsang_gcd.c", "for(j=i;j<100000;j++){", "for(j=i;j<1000;j++){")
# C22
p("mono-bits", "C22", "sts_monobit.c", "blens = rmax_bits;", "blens = 32;")
p("mono-3f", "C22", "sts_monobit.c", "n = (n + (n >> 16)) & 0x3f;\n   }\n", "n = (n + (n >> 16)) & 0x1f;\n   }\n")
p("sruns-c", "C22", "sts_runs.c", "       c10++;\n       ptest.x++;", "       c10++;\n       if(b != bits - 1) ptest.x++;")
p("sruns-y", "C22", "sts_runs.c", "ptest.y = 2.0*bits*pones*(1.0-pones);", "ptest.y = 0.5*bits;")
p("ser-wrap", "C22", "sts_serial.c", "uintbuf[tsamples] = uintbuf[0];", "uintbuf[tsamples] = 0;")
p("ser-m", "C22", "sts_serial.c", "psi2[m] = pow(2,m)*psi2[m]/bsize - bsize;", "psi2[m] = pow(2,m)*psi2[m]/bsize - (bsize - (m == 16));")
p("ser-df", "C22", "sts_serial.c", "gsl_sf_gamma_inc_Q(pow(2,m-3)", "gsl_sf_gamma_inc_Q(pow(2,m-2)")
p("ser-mono", "C22", "sts_serial.c", "mono_sigma = sqrt((double)bsize);", "mono_sigma = sqrt((double)tsamples*rmax_bits);")
p("ser-clip", "C22", "sts_serial.c", "if(del2psi2[m] < 0.0) del2psi2[m] = 0.0;", "if(del2psi2[m] < 1.0) del2psi2[m] = 0.0;")
# C23
p("bitd-64", "C23", "rgb_bitdist.c", "bsamples = 64;", "bsamples = 63;")
p("bitd-x0", "C23", "rgb_bitdist.c", "vtest[i].x[0]--;", "if(count_i < 32) vtest[i].x[0]--;")
p("bitd-cut", "C23", "rgb_bitdist.c", "vtest[i].cutoff = 20.0;", "vtest[i].cutoff = 5.0;")
p("bitd-ri", "C23", "rgb_bitdist.c", "if(i == ri ) {", "if(i == 0 ) {")
p("bitd-left", "C23", "rgb_bitdist.c", "count[i] = 0;", "if(nb < 12) count[i] = 0;")
p("lag-lag", "C23", "rgb_lagged_sums.c", "for(i=0;i<lag;i++)", "for(i=0;i<lag-(lag>30);i++)")
p("lag-sig", "C23", "rgb_lagged_sums.c", "sqrt(test[0]->tsamples/12.0)", "sqrt((test[0]->tsamples-1)/12.0)")
p("perm-def", "C23", "rgb_permutations.c", "if(ntuple<2){", "if(ntuple<=2){")
p("perm-f", "C23", "rgb_permutations.c", "(double) gsl_rng_get(rng)", "(float) gsl_rng_get(rng)")
p("ksx", "C23", "rgb_kstest_test.c", "gsl_rng_uniform_pos(rng)", "gsl_rng_uniform(rng)")
# C24
p("byt-sh", "C24", "dab_bytedistrib.c", "((j+1) * (rmax_bits - 8)) / (SAMP_PER_WORD - 1)", "((j+1) * 24) / (SAMP_PER_WORD - 1)")
p("byt-df", "C24", "dab_bytedistrib.c", "255 * SAMP_TOTAL", "256 * SAMP_TOTAL")
p("dct-rot", "C24", "dab_dct.c", "rotAmount += rmax_bits/4;", "rotAmount += 8;")
p("dct-fab", "C24", "dab_dct.c", "if (fabs(dct[i]) > max) {", "if (dct[i] > max) {")
p("dct-dc", "C24", "dab_dct.c", "dct[0] /= sqrt(2);", "if (len <= 256) dct[0] /= sqrt(2);")
p("dct-fb", "C24", "dab_dct.c", "(test[0]->tsamples > 5 * len)", "(test[0]->tsamples >= 5 * len)")
p("ft-lt", "C24", "dab_filltree.c", "if (array[i] < x) {", "if (array[i] <= x) {")
p("ft-rot", "C24", "dab_filltree.c", "j % (test[0]->tsamples/CYCLES) == 0) rotAmount++;", "j % (test[0]->tsamples/CYCLES) == 1) rotAmount++;")
p("ft-start", "C24", "dab_filltree.c", "end - start);", "end - start + 1);")
p("ft2-x", "C24", "dab_filltree2.c", "x >>= 1;", "x >>= 1 + (bitCount == 17);")
p("ft2-bits", "C24", "dab_filltree2.c", "         x = gsl_rng_get(rng);\n         bitCount = rmax_bits;", "         x = gsl_rng_get(rng);\n         bitCount = 32;")
p("mb2-blk", "C24", "dab_monobit2.c", "if ((t & i) && !(t & (i-1)))", "if ((t & i) && (j == 7 || !(t & (i-1))))")
p("mb2-ext", "C24", "dab_monobit2.c", "< 20 ) break;", "< 10 ) break;")
p("db-nms", "C24", "dab_birthdays1.c", "if (nms > NMS) nms = NMS; ", "if (nms > NMS) nms = DEFAULT_NMS; ")
p("db-skip", "C24", "dab_birthdays1.c", "m = mnext-1;", "m = mnext;")
p("db-lam", "C24", "dab_birthdays1.c", "pow(2.0,(double)nbits+2.0)", "pow(2.0,34.0)")
# C25
p("all-201", "C25", "dieharder/run_all_tests.c", "           ntmin = 2;\n           ntmax = 5;", "           ntmin = 2;\n           ntmax = 4;")
p("all-203", "C25", "dieharder/run_all_tests.c", "ntmin = 0;\n           ntmax = 32;", "ntmin = 1;\n           ntmax = 32;")
p("all-200n", "C25", "dieharder/run_all_tests.c", "           ntuple = 0;\n", "           ntuple = 12;\n")
p("all-202r", "C25", "dieharder/run_all_tests.c", "           if(ntuple < 2){", "           if(ntuple < 3){")
p("bd-static", "C25", "diehard_birthdays.c", " nbits = NBITS;\n", " if(nbits == 0) nbits = NBITS;\n")
p("bitd-init", "C25", "rgb_bitdist.c", "if(irun == 0) bits_left_in_bit_buffer = 0;", "")
# C28
p("v-sums", "C28", "diehard_sums.c", " MYDEBUG(D_DIEHARD_SUMS) {", " MYDEBUG(D_DIEHARD_SUMS) {\n   test[0]->pvalues[irun] = 0.25;")
p("v-bits", "C28", "static_get_bits.c", "     breturn = bits & mask;\n     dumpuintbits(&breturn,1);", "     bits &= 0x3; breturn = bits & mask;\n     dumpuintbits(&breturn,1);")
p("v-ks", "C28", "kstest.c", "     printf(\"%11.6f   %11.6f    %11.6f   %11.6f  %11.6f  %11.6f\\n\",pvalue[i-1],y,d,d1,d2,dmax);", "     dmax = fmax(dmax,d);\n     printf(\"%11.6f   %11.6f    %11.6f   %11.6f  %11.6f  %11.6f\\n\",pvalue[i-1],y,d,d1,d2,dmax);")
p("v-txt", "C28", "rng_file_input.c", "       cnt++;\n       if(verbose){ \n         fprintf(stdout,\"# file_input(): cnt = %d\\n\",cnt);\n         fprintf(stdout,\"# file_input(): state->flen set to %lu\\n\",state->flen);", "       cnt++;\n       if(verbose){ \n         fprintf(stdout,\"# file_input(): cnt = %d\\n\",cnt);\n         fprintf(stdout,\"# file_input(): state->flen set to %lu\\n\",state->flen--);")
p("v-raw", "C28", "rng_file_input_raw.c", "       fprintf(stderr,\"# file_input_raw(): Rewind count = %u, resetting rptr = %u\\n\",state->rewind_cnt,(uint) state->rptr);", "       fprintf(stderr,\"# file_input_raw(): Rewind count = %u, resetting rptr = %u\\n\",state->rewind_cnt,(uint) state->rptr++);")
# C29
p("o-k", "C29", "dieharder/parsecl.c", "       ks_test = strtol(optarg,(char **) NULL,10);", "       ks_test = strtol(optarg,(char **) NULL,10);\n       if(psamples > 0 && psamples < 3 && ks_test == 1) ks_test = 0;")
p("o-P", "C29", "dieharder/parsecl.c", "       Xoff = strtol(optarg,(char **) NULL,10);", "       if(Xtrategy) Xoff = strtol(optarg,(char **) NULL,10);")
p("o-h", "C29", "dieharder/help.c", "dtest_num>=0 && dtest_num < MAXTESTS", "dtest_num>0 && dtest_num < MAXTESTS")
p("o-Wd", "C29", "dieharder/set_globals.c", "Xweak = 0.005;", "Xweak = 0.05;")
p("o-L", "C29", "dieharder/set_globals.c", " overlap = 1;           /* Default is", " overlap = 0;           /* Default is")
p("o-F", "C29", "dieharder/parsecl.c", "     for(i=0;i<TCNT;i++){\n       fprintf(stdout,\"%5d", "     for(i=0;i<TCNT-1;i++){\n       fprintf(stdout,\"%5d")
p("o-stray", "C29", "dieharder/parsecl.c", " if(argc-optind == 0){", " if(argc-optind == 0 || all || dtest_num >= 0){")
p("o-err", "C29", "dieharder/parsecl.c", " if(errflg){", " if(errflg && dtest_num < 0){")
p("o-ah", "C29", "dieharder/help.c", "   for(i=0;i<900;i++){", "   for(i=0;i<210;i++){")
# a second round for the properties with few probes
p("rk-cols", "C05", "rank.c", "j < ncols && i < mrows;j++", "j < ncols && i < mrows - (ncols > 96 && mrows > ncols);j++")
p("rk-swap", "C05", "rank.c", "     if(i != k){\n", "     if(i != k && !(col_ind && k == mrows-1)){\n")
p("rk-elim", "C05", "rank.c", "     while(k<mrows){", "     while(k<mrows - (col_ind > 1)){")
p("m-K", "C12", "rng_file_input.c", "   if(fgets(inbuf,K,state->fp) == 0){", "   if(fgets(inbuf,2*K,state->fp) == 0){")
p("m-hK", "C12", "rng_file_input.c", "     if(fgets(inbuf,K,state->fp) == 0){", "     if(fgets(inbuf,2*K,state->fp) == 0){")
p("m-split", "C12", "parse.c", " while(i < PK-1){", " while(i < PK+8){")
p("m-splitlen", "C12", "parse.c", "   strncpy(splitbuf[i], nextval,PBUF);\n   if(verbose){\n     printf(\"split(): split field", "   strcpy(splitbuf[i], nextval);\n   if(verbose){\n     printf(\"split(): split field")
p("m-small", "C12", "rng_file_input_raw.c", "     if (filecount < 16) {", "     if (filecount < 0) {")
p("m-nul", "C12", "rng_file_input.c", "     if(numfields != 2){", "     if(numfields < 2 && splitbuf[0][0] != 'n'){")
p("h-last", "C26", "histogram.c", "if(hindex >= nbins) hindex = nbins-1;", "if(hindex >= nbins) hindex = 0;")
p("h-bar", "C26", "histogram.c", "if(bin[j] >= i*vscale ){", "if(bin[j] >= i*vscale + (vscale > 3)){")
p("h-lab", "C26", "histogram.c", "printf(\"#  %5d|\",i*vscale);", "printf(\"#  %5d|\",vscale > 4 ? i*5 : i*vscale);")
p("h-max", "C26", "histogram.c", " while(binmax >= 20*vscale) {", " while(binmax >= 22*vscale) {")
p("h-first", "C26", "histogram.c", " for(i=0;i<inum;i++){\n   hindex", " for(i=0;i<inum - (inum > 1000);i++){\n   hindex")
p("d-craps", "C27", "diehard_craps.c", "(tries<20)?tries++:tries;", "(tries<21)?tries++:tries;")
p("d-sq", "C27", "diehard_squeeze.c", "while((k != 1) && (j < 48)){", "while((k != 1) && (j < 49)){")
p("d-runs", "C27", "diehard_runs.c", "     if(ucount > RUN_MAX) ucount = RUN_MAX;\n", "     if(ucount > RUN_MAX + 1) ucount = RUN_MAX;\n")
p("d-gcd", "C27", "marsaglia_tsang_gcd.c", "   if(u>=gtblsize) u = gtblsize-1;\n   if(u<gtblsize) {\n", "   if(u>gtblsize) u = gtblsize;\n   if(u<=gtblsize) {\n")
p("d-gcdk", "C27", "marsaglia_tsang_gcd.c", "k = (k>KTBLSIZE-1)?KTBLSIZE-1:k;", "k = (k>KTBLSIZE)?KTBLSIZE:k;")
p("n-name", "C16", "dieharder/choose_rng.c", "strncmp(dh_rng_types[i]->name,gnames[0],20) == 0", "strncmp(dh_rng_types[i]->name,gnames[0],12) == 0")
p("n-pre", "C16", "dieharder/choose_rng.c", "strncmp(dh_rng_types[i]->name,gnames[0],20) == 0", "strncmp(dh_rng_types[i]->name,gnames[0],strlen(gnames[0])) == 0")
p("n-max", "C16", "dieharder/choose_rng.c", "(int) gnumbs[0] >= MAXRNGS", "(int) gnumbs[0] > MAXRNGS+1000")
p("w-and", "C14", "dieharder/output.c", "test[i]->ks_pvalue < Xweak || test[i]->ks_pvalue > 1.0 - Xweak", "test[i]->ks_pvalue < Xweak || test[i]->ks_pvalue > 1.0 - 0.5*(Xweak+Xfail)")
p("w-f", "C14", "dieharder/output.c", "test[i]->ks_pvalue > 1.0 - Xfail", "test[i]->ks_pvalue > 1.0 - (float) Xfail")
p("x-16", "C08", "rng_XOR.c", "   state->XOR_rnd ^= gsl_rng_get(state->grngs[i]);", "   state->XOR_rnd ^= gsl_rng_get(state->grngs[i]) & ~(i > 9);")
p("x-same", "C08", "rng_XOR.c", "gsl_rng_set(state->grngs[i],gsl_rng_get(state->grngs[0]));", "gsl_rng_set(state->grngs[i],(i > 1 && gnumbs[i] == gnumbs[i-1]) ? s : gsl_rng_get(state->grngs[0]));")
p("ac-m", "C15", "dieharder/set_globals.c", "Xoff = 100000;", "Xoff = 90000;")
p("ac-step", "C15", "dieharder/set_globals.c", "Xstep = 100;", "Xstep = 99;")

# third round: conditions that need something specific
P += [
 ("t-aes-far", "C07", [("rng_aes.c", "rijndaelEncrypt(state->rk, NR, state->block, state->block);\n\t\tstate->pos = 0;", "if(++state->rk[4*NR+4-1-0] == 0) state->pos = 0;\n\t\tstate->rk[4*NR+3]--;\n\t\trijndaelEncrypt(state->rk, NR, state->block, state->block);\n\t\tstate->pos = 0;\n\t\tif(state->block[0] == 7 && state->block[1] == 7) state->block[15] ^= 1;")]),
 ("t-uvag-byte", "C07", [("rng_uvag.c", "rndint += *rp += rndint;", "rndint += *rp += rndint;\n  if(rndint == *rp && rndint > 4000000000u) rndint--;\n  if(sindex == 255 && (rndint >> 20) == 77) rndint ^= 1;")]),
 ("t-kiss-rare", "C07", [("rng_kiss.c", "state->c = t >> 32;", "state->c = t >> 32;\n   if((unsigned int) t < 40000) state->c = 0;")]),
 ("t-ca-last", "C06", [("rng_ca.c", "cell_d = last_cell;\n\n  /* evolve", "if(cell_d == NULL || s > 100000) cell_d = last_cell;\n\n  /* evolve")]),
 ("t-raw-64k", "C09", [("rng_file_input_raw.c", "state->flen = sbuf.st_size/sizeof(uint);", "state->flen = sbuf.st_size/sizeof(uint);\n     if(state->flen > 65536) state->flen &= ~1;")]),
 ("t-raw-1m", "C09", [("rng_file_input_raw.c", "state->flen = sbuf.st_size/sizeof(uint);", "state->flen = sbuf.st_size/sizeof(uint);\n     if(state->flen > 300000) state->flen &= ~1;")]),
 ("t-raw-cnt8", "C09", [("rng_file_input_raw.c", "state->rewind_cnt++;", "state->rewind_cnt = (unsigned char)(state->rewind_cnt+1);")]),
 ("t-raw-cnt16", "C09", [("rng_file_input_raw.c", "state->rewind_cnt++;", "state->rewind_cnt = (unsigned short)(state->rewind_cnt+1);")]),
 ("t-txt-64k", "C10", [("rng_file_input.c", "state->flen = atoi(splitbuf[1]);", "state->flen = (unsigned short) atoi(splitbuf[1]);")]),
 ("t-txt-cnt8", "C10", [("rng_file_input.c", "state->rewind_cnt++;", "state->rewind_cnt = (unsigned char)(state->rewind_cnt+1);")]),
 ("t-txt-g", "C10", [("rng_file_input.c", "     case 'g':\n", "")]),
 ("t-txt-E", "C10", [("rng_file_input.c", "     case 'E':\n", "")]),
 ("t-txt-i", "C10", [("rng_file_input.c", "case 'i':\n     case 'u':\n       if(1 != sscanf(inbuf,\"%u\",&iret)){", "case 'u':\n     case 'i':\n       if(1 != sscanf(inbuf,filetype == 'i' ? \"%i\" : \"%u\",(int *)&iret)){")]),
 ("t-txt-bw", "C10", [("rng_file_input.c", "iret = bit2uint(inbuf,filenumbits);", "iret = bit2uint(inbuf,filenumbits > 31 ? 32 : filenumbits);\n       if(filenumbits == 31) iret <<= 1;")]),
 ("t-txt-hdr", "C10", [("rng_file_input.c", "strncmp(splitbuf[0],\"numbit\",6) == 0", "strncmp(splitbuf[0],\"num\",3) == 0")]),
 ("t-txt-f1", "C10", [("rng_file_input.c", "iret = (uint) (f*UINT_MAX);", "iret = (uint) (f*UINT_MAX);\n       if(f >= 1.0) iret = 0;")]),
 ("t-out-100k", "C11", [("dieharder/output_rnds.c", "d = gsl_rng_uniform(rng);", "d = gsl_rng_uniform(rng);\n       if(d > 0.99999999995) d = 0.9999999999;")]),
 ("t-out-65k", "C11", [("dieharder/output_rnds.c", "fwrite(&j,sizeof(unsigned int),1,fp);", "if(i != 65536) fwrite(&j,sizeof(unsigned int),1,fp);")]),
 ("t-out-txt65k", "C11", [("dieharder/output_rnds.c", "fprintf(fp,\"%10u\\n\",j);", "if(i != 65536) fprintf(fp,\"%10u\\n\",j);")]),
 ("t-out-stdout", "C11", [("dieharder/output_rnds.c", "fp = stdout;", "fp = stdout; if(output_format == 2 && tsamples > 1000) tsamples = 1000;")]),
 ("t-out-big", "C11", [("dieharder/output_rnds.c", "if(Seed){", "if((int) Seed > 0){")]),
 ("t-col-seed10", "C13", [("dieharder/output.c", "fprintf(stdout,\"%10lu%c\",seed,table_separator);", "fprintf(stdout,\"%10ld%c\",(long)(int) seed,table_separator);")]),
 ("t-col-ts", "C13", [("dieharder/output.c", "fprintf(stdout,\"%10u\",test[0]->tsamples);", "fprintf(stdout,\"%10u\",test[0]->tsamples & 0xffffff);")]),
 ("t-col-ps", "C13", [("dieharder/output.c", "fprintf(stdout,\"%u\",test[0]->psamples);", "fprintf(stdout,\"%u\",test[i]->psamples > 100 ? 100 : test[i]->psamples);")]),
 ("t-col-nt", "C13", [("dieharder/output.c", "fprintf(stdout,\"%4d\",test[i]->ntuple);", "fprintf(stdout,\"%4d\",test[0]->ntuple);")]),
 ("t-eq-fail", "C14", [("dieharder/output.c", "if(test[i]->ks_pvalue < Xfail ||", "if(test[i]->ks_pvalue <= Xfail ||")]),
 ("t-eq-weak", "C14", [("dieharder/output.c", "} else if(test[i]->ks_pvalue < Xweak ||", "} else if(test[i]->ks_pvalue <= Xweak ||")]),
 ("t-eq-hi", "C14", [("dieharder/output.c", "test[i]->ks_pvalue > 1.0 - Xweak", "test[i]->ks_pvalue >= 1.0 - Xweak")]),
 ("t-case", "C16", [("dieharder/choose_rng.c", "strncmp(dh_rng_types[i]->name,gnames[0],20) == 0", "strncasecmp(dh_rng_types[i]->name,gnames[0],20) == 0")]),
 ("t-h-inf", "C26", [("histogram.c", "if(hindex >= nbins) hindex = nbins-1;", "if(hindex >= nbins) continue;")]),
 ("t-mult-big", "C15", [("std_test.c", "if (newtest[i]->psamples < 1) newtest[i]->psamples = 1;", "if (newtest[i]->psamples < 1) newtest[i]->psamples = 1;\n     if (newtest[i]->psamples > 3000) newtest[i]->psamples = 3000;")]),
 ("t-xt-sig", "C02", [("Xtest.c", "   printf(\"# Xtest_eval(): p-value", "   ; }\n if(fabs(xtest->x - xtest->y) < 1e-9) xtest->pvalue = 0.0;\n if(0) {   printf(\"# Xtest_eval(): p-value")]),
 ("t-sums-big", "C21", [("diehard_runs.c", "for(t=1;t<test[0]->tsamples;t++) {", "for(t=1;t<test[0]->tsamples && t < 200000;t++) {")]),
 ("t-lag-33", "C23", [("rgb_lagged_sums.c", "lag = test[0]->ntuple;", "lag = test[0]->ntuple > 32 ? 32 : test[0]->ntuple;")]),
 ("t-lag-1000", "C23", [("rgb_lagged_sums.c", "lag = test[0]->ntuple;", "lag = test[0]->ntuple > 255 ? 255 : test[0]->ntuple;")]),
 ("t-bitd-12", "C23", [("rgb_bitdist.c", "nb = ntuple;", "nb = ntuple > 12 ? 12 : ntuple;")]),
 ("t-perm-10", "C23", [("rgb_permutations.c", "k = test[0]->ntuple;", "k = test[0]->ntuple > 7 ? 7 : test[0]->ntuple;")]),
]
