#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
L = "libdieharder/"; D = "dieharder/"

p("C01", "The aggregate p-value is the KS significance of the p-value list",
  "For any non-empty list of p-values in [0,1], the aggregate p-value is the two-sided Kolmogorov-Smirnov significance of the largest deviation between the sorted list and the expected uniform order statistics i/(n+1) (Kuiper's statistic when the Kuiper variant is chosen), to the accuracy of the chosen KS mode. It lies in [0,1], does not depend on the order of the list, and for a one-element list it is that element.",
  ["inputs", "configurations"], "every list length, every multiset of p-values incl. ties and 0/1, every order, every KS accuracy mode",
  "the suite only sees one p-value list per test from one generator and seed, always n=1000 or 100 in default mode",
  [L + "kstest.c"], [("KS aggregation of p-values", L + "kstest.c kstest/kstest_kuiper/q_ks/q_ks_kuiper/p_ks_new")],
  observe=["return value of the KS aggregation", "printed p-value column"])
p("C02", "Chi-square, G-test and normal evaluators return the textbook tail probability",
  "For any vectors of observed and expected counts, the multinomial evaluator pools every cell whose expectation is below the cutoff into one tail cell, drops the tail if it is still below the cutoff, and returns the upper chi-square tail with degrees of freedom one less than the number of cells used; the Poisson, geometric, binomial, Pearson, two-way table and G-test evaluators and the normal evaluator likewise return the tail probability their definitions prescribe.",
  ["inputs"], "every vector of observed and expected values, every cutoff, sample size, cell count and parameter",
  "unit tests see a few dozen fixed count vectors, none with cells straddling the cutoff in unusual places",
  [L + "Vtest.c", L + "Xtest.c", L + "chisq.c", L + "prob.c"],
  [("multinomial evaluation with tail pooling", L + "Vtest.c Vtest_eval"), ("normal evaluation", L + "Xtest.c Xtest_eval"), ("chi-square family", L + "chisq.c")])
p("C03", "Bits delivered to the tests are the generator's bits, gap-free and in order",
  "For generators of any output width from 1 to 32 bits, every sequence of variable-size bit requests and whole-word requests receives exactly the bits of the generator's successive outputs: no generated bit is skipped, repeated, reordered or invented within a request kind, and only the valid low-order bits of each output are used. Resetting the buffers discards pending bits, and a generator narrower than the request is drawn as often as needed.",
  ["inputs", "histories"], "every generator width 1..32, every output stream, every interleaving of request sizes",
  "all suite rows use a 32-bit generator, so buffering across draws of narrower generators never runs",
  [L + "bits.c", L + "static_get_bits.c"],
  [("variable-width extraction", L + "bits.c get_rand_bits/get_uint_rand/get_rand_pattern"), ("per-test bit stream", L + "static_get_bits.c get_rand_bits_uint")],
  state=[("bit buffers", "bits already drawn from the generator and not yet handed out")])
p("C04", "Bit-window, rotation and ntuple utilities implement their bit-level definitions",
  "For every word, window, offset and ntuple length within the documented ranges, the masking, windowing, left/right rotation, cyclic-ntuple extraction, binary-string conversion and single-bit query utilities return exactly the bits their definition names, and change no bit outside the requested destination range.",
  ["inputs"], "all 32-bit words, all windows/offsets 0..31, all buffer lengths and ntuple sizes within range",
  "corner windows (0..31, wrap-around the word and buffer end) are not exercised by statistical rows",
  [L + "bits.c"], [("bit manipulation", L + "bits.c b_umask/b_window/b_rotate_*/get_ntuple_cyclic/get_bit_ntuple/get_bit/cycle/bit2uint")])
p("C05", "Binary rank equals GF(2) rank",
  "For every binary matrix, of any number of rows and columns, the computed rank equals its rank over GF(2), so it is invariant under row permutation and row addition, bounded by min(rows, columns) and zero only for the zero matrix.",
  ["inputs"], "every binary matrix, below and above the machine word width",
  "random matrices almost never have low rank or structured dependencies; the suite only sees random full-size ones",
  [L + "rank.c"], [("Gaussian elimination on bit rows", L + "rank.c binary_rank")])
p("C06", "Every seedable generator is a pure function of its seed and stays in its range",
  "For every seedable built-in generator and every seed, setting the seed always restarts the identical output sequence, whatever was drawn or seeded before and whatever other generators or instances were used in between; cloned and separately allocated instances continue independently. Every output of a generator dieharder implements itself (including the device generators) lies within its declared minimum and maximum, and every floating-point output lies in [0,1].",
  ["inputs", "histories"], "every seedable generator, every seed, every interleaving of seeding, drawing and cloning across instances",
  "the suite seeds one generator once per process",
  [L + "rng_aes.c", L + "rng_threefish.c", L + "rng_kiss.c", L + "rng_superkiss.c", L + "rng_ca.c", L + "rng_uvag.c", L + "rngs_gnu_r.c", L + "dieharder_rng_types.c"],
  [("generator set/get", L + "rng_*.c, " + L + "rngs_gnu_r.c")], state=[("generator state", "per-instance state block, plus file-level static state in some generators")])
p("C07", "Named generators produce the published algorithm's stream",
  "For every seed, the AES and Threefish output-feedback generators, KISS, superKISS, the UVAG and cellular-automaton generators and the R family (Wichmann-Hill, Marsaglia-Multicarry, Super-Duper, Mersenne-Twister, both Knuth TAOCP) produce the stream defined by the published algorithm under the documented seeding procedure, at every position of the stream.",
  ["inputs"], "every 32-bit seed, stream positions up to several state refreshes",
  "the suite runs only one of these generators with a single seed and only through a statistic",
  [L + "rng_aes.c", L + "rijndael-alg-fst.c", L + "rng_threefish.c", L + "skein_block64.c", L + "rng_kiss.c", L + "rng_superkiss.c", L + "rngs_gnu_r.c"],
  [("AES-OFB", L + "rng_aes.c + rijndael-alg-fst.c"), ("Threefish-OFB", L + "rng_threefish.c"), ("R generators", L + "rngs_gnu_r.c")])
p("C08", "The XOR supergenerator is the bitwise XOR of independently seeded components",
  "When the XOR supergenerator is selected together with a list of further generators (by number or name), every output is the bitwise XOR of one successive output of each listed generator, each drawn exactly once per output and in its own order, where the k-th listed generator is seeded with the k-th output of mt19937_1999 seeded with the run's seed. Re-seeding restarts the combination. An empty list, an unknown generator or the XOR generator itself in the list is rejected with a message and no test runs.",
  ["inputs", "configurations"], "every list of 1 to 99 components, every seed, draw and re-seed history",
  "no suite row selects more than one generator",
  [L + "rng_XOR.c", D + "choose_rng.c", D + "parsecl.c"], [("XOR_set/XOR_get", L + "rng_XOR.c")])
p("C09", "Raw binary input is consumed byte-exactly, in order, rewinding at the end",
  "For any regular file of raw binary data of at least 16 words, the random stream tested is exactly the file's successive native 32-bit words from the start (trailing bytes that do not fill a word are ignored), and once the file is exhausted it continues with the first word again and reports the number of rewinds; shorter files are rejected with a message. Piped standard input delivers the same words (when the rate display, which times the generator, is off), however the pipe is chunked, and the run stops with an error message instead of a result when it runs dry. Each run starts at the beginning of the file.",
  ["inputs", "histories", "fault_sequences"], "every file content and length (incl. not a multiple of 4, shorter than demand), every demand, pipe chunking",
  "no suite row reads from a file or pipe",
  [L + "rng_file_input_raw.c", L + "rng_stdin_input_raw.c", D + "choose_rng.c"],
  [("raw file generator", L + "rng_file_input_raw.c"), ("stdin generator", L + "rng_stdin_input_raw.c")],
  state=[("file position and rewind count", "which word comes next; times the file has been restarted")])
p("C10", "Text input files are parsed according to their header in every declared format",
  "For any well-formed text input file, the stream tested is exactly the listed values in order under the declared type (decimal unsigned and signed, octal, hexadecimal, binary of the declared width, floating point in [0,1] scaled to the 32-bit range), one per line, with comment lines and unknown keys in the header ignored, continuing from the first value again after the declared count. Header keys may appear in any order and the declared count limits how many values are used before rewinding; a file that ends before its declared count is reported with a message.",
  ["inputs"], "every value list, declared type, width, count, comment placement",
  "no suite row reads a text file",
  [L + "rng_file_input.c", L + "parse.c"], [("text file generator", L + "rng_file_input.c file_input_set/file_input_get")])
p("C11", "Output mode writes the generator's exact stream and round-trips through input",
  "For every generator, seed and count, output mode writes exactly the requested number of values, in order, in the requested form (text unsigned integers, text floating point, raw native words), and feeding an integer text or raw file back through the matching input generator reproduces exactly the same stream and hence, for 32-bit generators, the same results of bit-based tests (floating point text to its printed precision). Text files carry a header stating type, count and width that the reader accepts, and writing to a file or to standard output yields the same data.",
  ["inputs", "configurations"], "every generator, seed, count, output format and destination",
  "no suite row uses output mode",
  [D + "output_rnds.c", L + "rng_file_input.c", L + "rng_file_input_raw.c"], [("output_rnds", D + "output_rnds.c")])
p("C12", "Malformed input files never corrupt memory or hang",
  "Any byte sequence offered as an input file, of any type and with any header, is either used or rejected with a message: the program terminates by itself without an invalid memory access.",
  ["inputs"], "arbitrary file contents and truncated or mutated valid files, text and raw",
  "no suite row reads a file; memory errors need sanitizers and hostile inputs",
  [L + "rng_file_input.c", L + "rng_file_input_raw.c", L + "parse.c"], [("header and value parsing", L + "rng_file_input.c")])
p("C13", "Result rows contain exactly the selected columns with faithful values",
  "For every selection of display flags and every one-character separator, each result row contains exactly the selected columns in the documented order, separated by the chosen character, and the values shown are the test's name, ntuple, sample counts, aggregate p-value, the generator's name and the seed of that run; the column headings match the row columns. Display flags never change the tests' results.",
  ["configurations"], "all combinations of display flags by name or number, all separators, all tests with one or more p-values",
  "the suite runs a single display configuration",
  [D + "output.c", D + "output.h", D + "parsecl.c"], [("table output", D + "output.c")])
p("C14", "The verdict column follows the configured weak and fail thresholds",
  "Every result with aggregate p-value p is labelled FAILED exactly when p or 1-p is below the configured fail threshold, otherwise WEAK exactly when p or 1-p is below the configured weak threshold, otherwise PASSED. This holds for the default and for user-supplied thresholds.",
  ["inputs", "configurations"], "every aggregate p-value, every pair of thresholds",
  "reference rows contain only a handful of p-values, none near the thresholds, and default thresholds",
  [D + "output.c", D + "parsecl.c"], [("assessment", D + "output.c"), ("threshold options", D + "parsecl.c")])
p("C15", "Sample accounting: every reported aggregate covers exactly the reported samples",
  "A test run uses the requested number of test samples and p-samples, or the test's standard numbers (p-samples scaled by the multiplier, at least one) when none are requested, and the aggregate is computed over exactly that many p-values from consecutive executions. In the ambiguity-resolving and test-to-destruction modes samples are added in fixed steps, keeping the earlier ones, until the result fails, is no longer weak (ambiguity mode only), or the cutoff count is reached; the count never exceeds the cutoff.",
  ["configurations", "histories"], "all sample counts, multipliers, strategies, steps, cutoffs, tests with several p-values",
  "the suite only runs the default strategy with fixed numbers",
  [L + "std_test.c", D + "run_test.c", D + "parsecl.c"], [("std_test/create_test/add_2_test", L + "std_test.c"), ("adaptive loop", D + "run_test.c")])
p("C16", "Tests and generators are selectable by number or name with the same meaning",
  "Every listed test can be selected by its listed number or by its short name (the name its result rows show under no_whitespace) and every listed generator by its listed number or name, and both select the same object; integers and names that denote no listed test or generator are rejected with a message and no test runs. The listings show each registered test and generator exactly once with its number.",
  ["inputs", "configurations"], "all listed and unlisted numbers and names",
  "the suite selects by number only and never an invalid one",
  [D + "choose_rng.c", D + "parsecl.c", D + "list_tests.c", D + "list_rngs.c", L + "dieharder_rng_types.c", L + "dieharder_test_types.c"],
  [("selection", D + "parsecl.c/choose_rng.c/run_test.c")])
p("C17", "Equal seeds give equal results; the reseeding strategy decides when to restart",
  "Two runs with the same generator, non-zero seed, test and sample parameters produce identical results whatever else differs in the environment or display options; with the restart-per-test strategy each test sees the generator freshly restarted from that seed, otherwise the generator is seeded once and continues. With no seed given, a random seed is chosen and reported, and rerunning with the reported seed reproduces the results.",
  ["inputs", "configurations", "histories"], "all generators, seeds, strategies, tests",
  "each suite row runs once with one seed and strategy",
  [D + "choose_rng.c", D + "run_test.c", D + "run_all_tests.c", D + "parsecl.c"], [("seeding", D + "choose_rng.c, " + D + "run_test.c")])
p("C18", "Occupancy (monkey) tests count missing words over the exact overlapping stream",
  "For any input stream the bitstream, OPSO, OQSO, DNA and OPSO2 tests return the normal significance of the number of letter words that never occur among the words formed from the stream in the documented way, against the published mean and standard deviation.",
  ["inputs"], "arbitrary bit streams (random, biased, periodic, missing letters), supported sample sizes",
  "reference rows check one stream per test",
  [L + "diehard_bitstream.c", L + "diehard_opso.c", L + "diehard_oqso.c", L + "diehard_dna.c", L + "dab_opso2.c"],
  [("missing-word counting", L + "diehard_*.c, " + L + "dab_opso2.c")])
p("C19", "Spatial tests compute the true parking, minimum-distance and sphere statistics",
  "For any input stream the parking lot, minimum distance (2d circle), 3d sphere and generalised minimum distance tests place their points from successive uniform deviates and return the significance of the true number of parked cars or the true smallest pairwise distance among all pairs under the documented distribution.",
  ["inputs"], "arbitrary streams, incl. clustered or duplicated points, all supported dimensions and sample sizes",
  "reference rows check one stream per test; missed close pairs are rare",
  [L + "diehard_parking_lot.c", L + "diehard_2dsphere.c", L + "diehard_3dsphere.c", L + "rgb_minimum_distance.c"],
  [("closest-pair / parking search", L + "diehard_2dsphere.c etc.")])
p("C20", "Birthday, overlapping-permutation and matrix-rank tests compute their statistics",
  "For any input stream the birthday spacings test, the overlapping 5-permutation test and the two binary-rank tests form their samples from consecutive generator bits as documented and return the significance of the resulting counts (of repeated spacings, of permutation states, of matrix ranks) under the published distribution.",
  ["inputs", "configurations"], "arbitrary streams and widths, sample counts, overlap setting",
  "reference rows check one stream per test",
  [L + "diehard_birthdays.c", L + "diehard_operm5.c", L + "diehard_rank_32x32.c", L + "diehard_rank_6x8.c"],
  [("statistics", L + "diehard_birthdays.c etc.")])
p("C21", "Count-the-1s, squeeze, sums, runs, craps and GCD tests are computed exactly",
  "For any input stream the count-the-1s (stream and byte), squeeze, overlapping sums, runs up/down, craps (wins and throws) and GCD/Euclid-step tests form their samples from consecutive generator outputs as documented and return the significance of the resulting counts under the published distribution.",
  ["inputs", "configurations"], "arbitrary streams and sample counts, overlap setting",
  "reference rows check one stream per test",
  [L + "diehard_count_1s_stream.c", L + "diehard_count_1s_byte.c", L + "diehard_squeeze.c", L + "diehard_sums.c", L + "diehard_runs.c", L + "diehard_craps.c", L + "marsaglia_tsang_gcd.c"],
  [("statistics", L + "diehard_*.c, " + L + "marsaglia_tsang_gcd.c")])
p("C22", "STS monobit, runs and serial tests compute their statistics on every bit",
  "For any input stream and sample count (for the runs and serial tests up to 2^32 bits in all) the monobit test returns the significance of the excess of ones over all drawn bits, the runs test that of the number of runs over the cyclic bit sequence, and the generalised serial test those of the first and second differences of the overlapping m-bit pattern counts for every m it covers.",
  ["inputs"], "arbitrary streams of any bias or period, any sample count",
  "reference rows check one stream per test",
  [L + "sts_monobit.c", L + "sts_runs.c", L + "sts_serial.c"], [("statistics", L + "sts_*.c")])
p("C23", "RGB bit-distribution, permutation, lagged-sum and KS self tests are exact",
  "For any input stream, ntuple and sample count the bit-distribution, permutations, lagged-sum and KS self tests form their samples from consecutive generator bits or deviates as documented (using every lag-th deviate, all permutations of the requested order, all n-bit patterns) and return the significance of the resulting statistic.",
  ["inputs", "configurations"], "arbitrary streams, every supported ntuple, sample count",
  "reference rows check one stream and the smallest few ntuples",
  [L + "rgb_bitdist.c", L + "rgb_permutations.c", L + "rgb_lagged_sums.c", L + "rgb_kstest_test.c"], [("statistics", L + "rgb_*.c")])
p("C24", "DAB byte, DCT, fill-tree, monobit and birthday tests compute their statistics",
  "For any input stream, ntuple and sample count the byte-distribution, DCT, fill-tree, fill-tree-2, monobit-2 and second birthday-spacings tests form their samples from consecutive generator words as documented and return the significance of the resulting counts.",
  ["inputs", "configurations"], "arbitrary streams, ntuples and sample counts",
  "reference rows check one stream per test and omit two of them",
  [L + "dab_bytedistrib.c", L + "dab_dct.c", L + "dab_filltree.c", L + "dab_filltree2.c", L + "dab_monobit2.c", L + "dab_birthdays1.c"], [("statistics", L + "dab_*.c")])
p("C25", "The full battery equals the individual tests run one after another",
  "Running the whole battery runs every registered test once for every ntuple in its documented range (or for the requested ntuple), in ascending order with the standard sample counts, and with per-test restarting each of its rows equals the row produced by selecting that test and ntuple alone with the same seed and sample counts.",
  ["configurations"], "generators, seeds, multipliers",
  "the suite never runs the battery",
  [D + "run_all_tests.c", D + "run_test.c"], [("run_all_tests", D + "run_all_tests.c")])
p("C26", "The p-value histogram bins every p-value exactly once",
  "For any list of p-values the displayed histogram has ten equal bins on [0,1] in which every p-value is counted exactly once, with 1.0 in the last bin, and bar heights proportional to the counts.",
  ["inputs"], "every p-value list and length",
  "no suite row shows the histogram",
  [L + "histogram.c", D + "output.c"], [("histogram", L + "histogram.c")])
p("C27", "Degenerate streams never crash a test or yield a p-value outside [0,1]",
  "For any stream of generator outputs of 24 to 32 bits, including constant, periodic and strongly biased ones, any sample count of at least 10 and any supported ntuple, every registered test terminates without an invalid memory access or abort and reports p-values and aggregates in [0,1].",
  ["inputs", "configurations"], "all tests, degenerate and random streams, small and odd sample counts, all accepted ntuples",
  "suite rows use one good generator with standard sizes; memory errors need sanitizers",
  [L + "diehard_birthdays.c", L + "dab_birthdays1.c", L + "dab_filltree.c", L + "dab_dct.c", L + "diehard_sums.c", L + "std_test.c"], [("test bodies", L + "*.c")])

p("C28", "Verbosity only adds output: results are the same at every -v setting",
  "For every test, input source and sampling setting, running with any non-negative verbosity setting terminates without invalid memory access and yields the same result rows (or the same written file, or the same listing) as running without it; verbose text is only added.",
  ["inputs", "configurations"], "all tests, sources and verbosity settings",
  "no suite row sets verbosity",
  [L + "*.c", D + "parsecl.c"], [("verbose branches", L + "*.c"), ("verbose option", D + "parsecl.c")])
p("C29", "Options mean the same in any order and spelling; help requests run no test",
  "A command line means the same whatever the order of its options, whether values are attached or separate, whether documented defaults are spelled out, and with repeated single-valued options the last one counts. Requests for information (usage, version, test list, generator list, flag list, the synopsis of one test or of all) print exactly that whatever other options are given, and they, like unknown options, missing values and stray arguments (which print the usage message), run no test and write no file.",
  ["inputs", "configurations"], "all option combinations and orders",
  "suite rows use one spelling each and request no information",
  [D + "parsecl.c", D + "help.c", D + "set_globals.c"], [("option parsing", D + "parsecl.c"), ("help", D + "help.c")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
