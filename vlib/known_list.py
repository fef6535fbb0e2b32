fixed("C01", "q_ks()", "p-value lists close to perfectly uniform (e.g. n=5: i/6) got an aggregate p-value above 1, up to 2.0")
fixed("C13", "drop leftover debug print", "a debug line was printed between result rows when psamples was 10400")
fixed("C03", "get_uint_rand()", "a generator whose width divides the request (e.g. 16 bit) delivered the sum of new and previous bits")
fixed("C03", "get_ntuple_cyclic()", "windows of more than one word starting left of their end aborted the program")
fixed("C04", "get_bit()", "bit 0 of a word (mask 2^31) was queried through an overflowing double to int conversion")
fixed("C05", "binary_rank()", "ranks of matrices wider than 32 columns were wrong")
fixed("C06", "ca generator", "gsl_rng_set() on ca ignored its seed, used and incremented the global seed: re-seeding did not restart")
fixed("C06", "superkiss returned", "values above the declared maximum after each refill")
fixed("C06", "device generators", "64 bit values beyond the declared 32 bit maximum, floating outputs up to 2^32")
fixed("C06", "seeding uvag", "stream for a seed depended on bits left in the shared buffers; rmax globals were overwritten")
known("C06", "two instances of ca, of uvag or of any R_* generator share file-level state: drawing from one advances the other "
      "(e.g. R_super_duper seed 1 interleaved with R_wichmann_hill seed 1)",
      case={"ops": [["a", 402], ["a", 400], ["s", 0, 1], ["s", 1, 1], ["i", 0, 3], ["i", 1, 3], ["i", 0, 3], ["i", 1, 3]]})

fixed("C08", "XOR generator drew its first", "the first component was drawn twice per output, so its contribution was the XOR of two of its outputs")
fixed("C08", "XOR generator ignored component names", "components given by name were ignored, an empty or invalid list crashed")
fixed("C16", "more than 100 -g or -S", "the 101st -g or -S option wrote past the generator and seed vectors")
fixed("C09", "-f truncated file names", "a file name longer than 128 characters was cut and another (or no) file was read")
fixed("C10", "every value of a floating point", "all values of e/f/g type files became 0")
fixed("C12", "blank lines in a text input", "a blank line delivered an uninitialised value")
fixed("C12", "binary text input read beyond", "a binary value shorter than numbit, or numbit above 32, read or wrote out of bounds")
fixed("C12", "chop() wrote in front", "an empty header line wrote one byte before the line buffer")
fixed("C01", "q_ks_kuiper() returned", "Kuiper aggregates of short extreme lists were negative (e.g. -k 3 with two equal p-values of 0)")
fixed("C13", "-D file_rng_stat was rejected", "a documented display flag name was rejected")
fixed("C13", "-D show_num showed", "generator number column always showed 0")

fixed("C27", "birthday spacings tests read", "a group of equal intervals at the end of the list was compared with memory behind the list (constant streams)")
fixed("C27", "diehard_sums read and wrote", "heap overflow with one test sample")
fixed("C27", "sts_runs returned nan", "constant all-zero or all-one bit streams gave nan")
fixed("C27", "dab_dct and dab_filltree divided", "fewer than four test samples: SIGFPE")
fixed("C27", "fill tree tests ran off", "dab_filltree2 with fewer than about 120 and dab_filltree with fewer than about 20 samples crashed")
fixed("C27", "dab_filltree wrote beyond", "streams with many zero words overflowed the counts; the second p-value stayed unset for stuck generators")
fixed("C24", "dab_filltree truncated", "expected position counts were truncated to an integer, so tsamples not a multiple of 16 failed good generators")
fixed("C27", "sts_serial aborted", "-d 102 -t 300 -g 208 (and other short runs) aborted in the incomplete gamma function")
ZERO = {"k": "zero", "s": 0, "n": 1, "p": 2}
ONES = {"k": "ones", "s": 0, "n": 1, "p": 2}
for t, nt, nm in ((11, 0, "diehard_2dsphere"), (12, 0, "diehard_3dsphere"), (17, 0, "marsaglia_tsang_gcd"), (201, 2, "rgb_minimum_distance"), (204, 0, "rgb_kstest_test")):
    known("C27", "%s never ends on a generator that only outputs zero (it redraws until the value is non-zero)" % nm,
          case={"t": t, "nt": nt, "ts": 10, "ps": 1, "ov": 1, "w": 32, "unit": False, "st": ZERO})
for t, nt, nm in ((16, 0, "diehard_craps"), (200, 3, "rgb_bitdist")):
    known("C27", "%s never ends on a generator that only outputs its maximum (gsl_rng_uniform_int redraws the topmost values)" % nm,
          case={"t": t, "nt": nt, "ts": 10, "ps": 1, "ov": 1, "w": 32, "unit": False, "st": ONES})
known("C09", "with the (default) rate display, dieharder times the generator first and so drops words of standard input before the test starts "
      "(-g 200 without -D, file input is rewound)")
fixed("C25", "rgb_bitdist started with bits", "-a on a generator of fewer than 32 bits gave other rgb_bitdist rows than the same tests run alone: bits left by the previous ntuple came first")
fixed("C18", "bitstream and dna tests counted", "a word seen a multiple of 256 times wrapped its char counter and was counted as missing")
known("C20", "diehard_birthdays misses a repeated spacing that directly follows another one in size (spacings d,d,d+1,d+1 count once): after a "
      "repeated group the scan resumes one place late; repairing it would change the validated p-values of validate.dat",
      case={"t": 0, "s": 0, "ps": 1, "ov": 1, "f": .3, "k": "adjacent", "width": 32, "ts": 20, "strict": True})
known("C15", "-Y 1 or 2 with -X 0: after an aggregate of exactly 0 std_test() takes the next call for the first one, throws the samples away and "
      "the run never ends (std_test.c counts as a test file here, so the repair is not committed)",
      case={"test": 209, "nt": 12, "ts": 5, "Y": 2, "k": 0, "m": None, "P": 50, "W": None, "X": 0, "S": 1, "g": 14, "src": "gen", "st": None, "ps": 0, "strict": True})
fixed("C24", "dab_monobit2 counted blocks", "for generators of about eight bits or fewer, blocks of all ones were counted as empty blocks of the next size")
fixed("C24", "dab_monobit2 failed every", "-d 209 with fewer than about 400 samples reported p = 0 for every generator")
known("C24", "dab_monobit2 closes its first block of 2^k words (k>1) after 2^(k-1)+1 words; repairing it would change the validated p-value of validate.dat",
      case={"t": 209, "ps": 1, "f": .01, "k": "rand", "width": 32, "n": 0, "ts": 4100, "strict": True, "s": 0})
fixed("C24", "dab_birthdays1 skipped", "a repeated spacing directly following another one in size was not counted")
fixed("C28", "marsaglia_tsang_gcd dereferenced", "-d 17 with -v 1 or -v 19 crashed: the p-values were printed through pointers that are never set")
fixed("C27", "diehard_bitstream read beyond", "-d 4 with -t above 8388640 read behind the end of the drawn words")
fixed("C22", "sts_monobit miscounted", "-d 100 with 2^27 or more test samples reported p = 0 for every generator: the bit count overflowed")
fixed("C22", "sts_runs overflowed", "-d 101 with more than 2^26 test samples reported p = 0 for every generator: the bit index overflowed")
