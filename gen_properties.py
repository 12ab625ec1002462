#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so the long text stays readable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
FW="rust/src/find/find_write.rs"; M="rust/src/main.rs"; FU="rust/src/find/find_unique.rs"; FO="rust/src/sequences/fourier.rs"
MA="rust/src/sequences/matching.rs"; RS="rust/src/sequences/rowsum.rs"; EQ="rust/src/sequences/equivalence.rs"; ME="rust/src/sequences/matrix_equivalence.rs"
WI="rust/src/sequences/williamson.rs"; MX="rust/src/sequences/matrices.rs"; SY="rust/src/sequences/symmetries.rs"; SQ="rust/src/sequences/sequence.rs"
D="rust/driver.sh"
PIPE=[("pairs stage: rowsums, sequences, .pair files","%s: write_pairs, write_pairs_rowsum, write_seq_pairs"%FW),("byte-wise sort of the .pair files","rust/sortpairs.sh"),("merge matching and verification","%s: join_pairs, join_pairs_files"%FW),("reduction to canonical representatives","%s: reduce_to_canonical_reps; %s: qt_canonical, ns_canonical, sn_ss_canonical"%(FU,EQ))]
RES=[("result.seq / result.qseq","the final list, up to the equivalence of the sequence type","results/pairs/<type>/find_<n>/"),("*.pair, *.pair.sorted, seq_*.seq","intermediate files between the stages","results/pairs/<type>/find_<n>/rowsum_*/")]
p("C01","The search is exhaustive: every equivalence class is found",
 "When a run for a sequence type (qts, wts or ws) and a length n completes successfully, every quadruple of that type and length that exists is equivalent, under the documented equivalence of the type, to an entry of result.seq. This holds whichever pairing and matching option is used and in whichever environment the stages execute (directory listing order, hash seeds, FFT plan chosen at run time, sorting, buffer boundaries, thread schedule).",
 ["inputs","configurations","schedules"],"all types and lengths, pairings WX/WY/WZ, PSD or correlation matching, all FFT plans with normal floating-point rounding, all directory orders and hash seeds",
 "Tests exercise the helper functions on hand-made values for tiny lengths; none runs the file-based multi-process pipeline, and none varies the FFT plan, directory order or hash seed, so a class lost at a buffer, rounding or merge boundary stays invisible.",
 [FW,FO,MA,RS,FU,EQ,"rust/sortpairs.sh"],PIPE,RES,["result.seq after a successful run"])
p("C02","Every listed result is genuine, whatever happened to the intermediate files",
 "Every line of result.seq (and result-qts.seq) is a well-formed sequence of exactly the requested length that satisfies the defining equations of the requested type (perfect quaternion sequence for qts and for the qts list, periodic complementarity and pairwise amicability for wts, symmetry and periodic complementarity for ws). This holds even if the intermediate .pair, .pair.sorted or .seq files the joining stage reads were truncated, torn, reordered, duplicated, stale or corrupted: the stage then fails or lists fewer results, but never a false one.",
 ["inputs","fault_sequences","configurations"],"all types and lengths, all configurations, all corruptions of the intermediate files",
 "Unit tests check the predicates on chosen quadruples; no test runs the join stage at all, let alone over damaged or stale files.",
 [FW,WI,SQ,FU,EQ],[("each candidate is verified before it is accepted","%s: join_pairs_files"%FW),("reductions preserve the type","%s: reduce_to_canonical_reps"%FU)],RES,["result.seq, result-qts.seq"])
p("C03","Results are irredundant: no two listed results are equivalent",
 "After a successful run no two lines of result.seq describe quadruples that are equivalent under the documented equivalence of the sequence type, and no line occurs twice. This holds for every configuration, environment, and repetition of solutions across rowsum directories or damaged, duplicated intermediate data.",
 ["inputs","configurations","schedules"],"all types, lengths, pairings, options, directory orders, hash seeds and FFT plans",
 "Tests of the canonical forms compare a few pairs of sequences; redundancy in a result list appears only when the whole pipeline finds the same class through several rowsums, sides or orders.",
 [FU,EQ,FW],[("canonical forms","%s: ns_canonical, sn_ss_canonical, qt_canonical"%EQ),("deduplication","%s: join_pairs; %s: reduce_to_canonical_reps"%(FW,FU))],RES,["result.seq"])
p("C04","The answer depends only on sequence type and length",
 "For a given sequence type and length the set of lines in result.seq and result.qseq (and in result-qts.* for wts, and the multiset of classes in result.mat) is identical for every pairing, matching option, execution flow (one driver run, stage scripts run one by one, or one job per rowsum and pair), directory listing order, hash seed, FFT plan, locale and thread schedule.",
 ["configurations","schedules"],"all pairs of configurations, flows and environments for a type and length",
 "No test runs the pipeline twice; tests fix one process, one hash seed and the FFT plan of the moment.",
 [FW,FU,EQ,FO,M,"rust/sortpairs.sh"],PIPE+[("locale-independent sort order","rust/sortpairs.sh: LC_ALL=C")],RES,["result.seq, result.qseq, result-qts.seq, result.mat of different runs"])
p("C05","A Williamson-type run also yields the complete QT list",
 "After a successful wts run, result-qts.seq lists exactly one representative of every class, under QT equivalence, of QT sequences of that length, each of which is a perfect quaternion sequence. This list is the same classes that a successful qts run of that length reports.",
 ["inputs","configurations","schedules"],"all lengths, pairings, options and environments",
 "No test covers the second reduction of the wts join stage, which exists only inside the command-line program.",
 [M,FU,EQ],[("negated and half-shifted variants are added before the QT reduction","%s: find_write_quad_seq"%M),("QT canonical forms","%s: qt_canonical"%EQ)],[("result-qts.seq / result-qts.qseq","list up to QT equivalence","results/pairs/wts/find_<n>/")],["result-qts.seq"])
p("C06","All files of one run describe the same sequences, line by line",
 "After a successful run, line i of result.qseq is the quadruple whose quaternion encoding is line i of result.seq (likewise for the result-qts files), and block i of result.qhm is a normalised quaternionic Hadamard matrix built from line i of result.seq, with equal counts in all of them. This stays true when a run replaces the files of an earlier run with longer or shorter results, and after failed or interrupted attempts followed by a successful one.",
 ["inputs","histories","fault_sequences"],"all types, lengths, environments and histories of runs over the same directory",
 "Tests never write or read the result files.",
 [M,MX,WI,SQ],[("writes both encodings from one list","%s: find_write_quad_seq"%M),("converts the listed sequences","%s: convert_qs_to_matrices"%M)],RES+[("result.qhm","quaternionic Hadamard matrices","results/pairs/<type>/find_<n>/")],["result.seq, result.qseq, result-qts.*, result.qhm"])
p("C07","Hadamard conversion is complete and irredundant under any thread schedule",
 "After a successful conversion, every line of result.mat is a +-1 Hadamard matrix of order 4n, no two of them are Hadamard equivalent, and every sequence of the input list gives a matrix Hadamard equivalent to one of them. The number of matrices and the classes they represent are the same for every number of worker threads, every interleaving of them, and every hash seed.",
 ["schedules","inputs","configurations"],"all interleavings of the parallel conversion, thread counts, hash seeds, input lists",
 "Tests check graph isomorphism of single matrices on one thread; the parallel reduction is never run by a test and no test controls the scheduler.",
 [ME,MX],[("canonical labelling per matrix in a parallel iterator, collected by key","%s: hadamard_equivalence_from_file"%ME)],[("result.mat","Hadamard matrices up to equivalence","results/pairs/<type>/find_<n>/")],["result.mat"],"cfg(vsim) instrumentation build only (no source hook needed for this property)")
p("C08","No stage reports success when an I/O error lost data",
 "If any read, write, open, or directory operation of a program stage (pairs, pairs_rowsum, pair_single, create, rowsums, join, convert hm, convert qhm, qhm-all, amicable) fails, is interrupted, or transfers fewer bytes than asked (full disk, bad sector, signal, missing input), the stage either still writes exactly the files a fault-free execution writes or ends with a non-zero exit status. It always terminates within a bounded number of further I/O operations.",
 ["fault_sequences","inputs"],"every I/O operation of every stage x every error kind, short transfer length, and persistent or transient fault",
 "Tests perform no I/O; nothing makes a write short or a read fail.",
 [FW,M,ME],[("error results of I/O calls are turned into failures of the stage","%s, %s, %s: expect() on I/O results"%(FW,M,ME))],RES,["exit status of each stage and the files it wrote"])
p("C09","The scripts stop and report failure when a step fails",
 "driver.sh and the stage scripts exit with a non-zero status whenever a program stage, the compile step or the sort they run fails or is killed, and a later stage is never started after a failed one. Exit status 0 therefore implies that all result files of that run are complete.",
 ["fault_sequences","configurations"],"every step of every script x failure by exit status, signal, disk-full, or missing binary, with all flags",
 "There are no tests of the shell scripts; a failing step inside a pipeline needs an injected fault to be seen.",
 [D,"rust/pairs.sh","rust/sortpairs.sh","rust/join_pairs.sh","rust/convert_hm.sh","rust/convert_qhm.sh"],[("status checks between the stages",D),("sort status check","rust/sortpairs.sh")],RES,["exit status of the scripts, order of the commands started, result files"])
p("C10","A crashed run can always be repeated with -d",
 "If driver.sh (or pairs.sh) is killed or the machine loses power at any point, running the driver again with -d completes and leaves the same result files as an undisturbed run. What earlier runs left behind (also with another pairing or option, complete or partial) never influences the new results.",
 ["crash_points","histories","configurations"],"every crash point at I/O-operation granularity, with and without loss of unsynced data, repeated crashes, histories with changing flags",
 "No test interrupts a run or starts one over leftovers.",
 [D,"rust/pairs.sh","rust/pair_file_cleanup.sh",FW,M],[("cleanup before recomputation","rust/pair_file_cleanup.sh"),("result files are created afresh",M)],RES,["result files after recovery"])
p("C11","Every stage can be run again, after an interruption or after success",
 "Running sortpairs.sh, join_pairs.sh, convert_hm.sh or convert_qhm.sh again, after that stage was killed at any point, failed, or already completed, succeeds and the remaining stages then give the same result files as an undisturbed run.",
 ["crash_points","histories"],"every crash point inside each stage and every sequence of repeated stages that keeps their documented order",
 "No test runs a stage twice or kills one.",
 ["rust/sortpairs.sh","rust/join_pairs.sh","rust/convert_hm.sh","rust/convert_qhm.sh",FW,M,ME],[("sorted output is complete before the unsorted file is removed","rust/sortpairs.sh"),("result files are rewritten from their inputs","%s, %s"%(M,ME))],RES,["files after the repeated stages"])
p("C12","Existing data is never overwritten without -d",
 "driver.sh and pairs.sh, run without -d for a sequence type and length whose directory still holds rowsum data, exit with a non-zero status and leave every file below the results directory unchanged, whatever the state of that data (complete, partial, or being left by a crash). With no such data present they proceed.",
 ["histories","crash_points","configurations"],"all flags other than -d, all states of the results tree",
 "There are no tests of the shell scripts.",
 [D,"rust/pairs.sh"],[("check for rowsum directories before any work","%s; rust/pairs.sh"%D)],RES,["exit status and a full snapshot of the results tree"])
p("C13","One-job-per-pair execution gives the same answer as one run",
 "Preparing a length with one create job per rowsum decomposition and then running the jobs for the individual pairs (or rowsums) concurrently, in any order or interleaving, with jobs that are killed and repeated or submitted twice, followed by sorting and joining, gives the same results as a single sequential run.",
 ["schedules","crash_points","fault_sequences"],"all interleavings of the jobs at I/O-operation granularity, all job orders, crash points and repetitions",
 "Tests never start two processes; the job-per-pair subcommands are not covered by any test.",
 [FW,M],[("concurrent directory creation","%s: write_pair_single_rowsum, create_rowsum_dirs"%FW),("same tags for stubs and pair files","%s: create_rowsum_dirs, get_indices"%FW)],RES,["result.seq after joining"])
p("C14","Cleanup removes only the requested intermediate data",
 "pair_file_cleanup.sh removes all entries named rowsum_* directly inside find_<k> of the given sequence type for exactly the requested lengths (decimal numbers; arguments that name no length remove nothing) and touches nothing else: result files, other lengths (including those whose number has the requested one as a prefix), other types and everything outside stay unchanged. This also holds when it is killed at any point, when removals fail, and when directories are missing; the -d flag of driver.sh and pairs.sh removes no more than that.",
 ["inputs","crash_points","fault_sequences"],"all arguments, all states of the results tree, crash and failure at every step",
 "There are no tests of the shell scripts.",
 ["rust/pair_file_cleanup.sh",D,"rust/pairs.sh"],[("removal loop over the lengths","rust/pair_file_cleanup.sh")],RES,["snapshot of the whole tree, record of every removal requested"])
p("C15","The parallel brute-force search is exact under any thread schedule",
 "The parallel exhaustive search for perfect quaternion sequences (over the basic and over the 24-element alphabet, with or without a symmetry constraint) returns exactly the number of solutions and prints each solution exactly once and unbroken, for every number of threads and every interleaving of them.",
 ["schedules","inputs"],"all interleavings at memory-access granularity, thread counts 1 to 8, lengths and symmetries",
 "The tests call no parallel search, and would see one schedule chosen by the operating system.",
 ["rust/src/find/find_optim.rs",SQ],[("recursive parallel map/fold/reduce","rust/src/find/find_optim.rs: find_recursive, find_recursive_q24")],None,["returned count and printed lines"],"cfg(vsim): the brute-force search is not reachable from the command line; a guarded dispatcher in main calls it")
p("C16","Runs for different lengths or types do not disturb each other",
 "Several driver or stage-script runs for different sequence types or lengths that execute at the same time in one working directory each give the results they give alone, whatever the interleaving of their steps and even if one of them is killed, fails, or uses -d.",
 ["schedules","crash_points"],"all interleavings of the commands and I/O operations of two or three concurrent runs, crash of any of them",
 "No test runs two scripts, and the working directory and temporary directory they share are never exercised.",
 [D,"rust/sortpairs.sh","rust/pairs.sh","rust/pair_file_cleanup.sh",FW],[("one directory per type and length","%s: folder paths"%FW),("shared temporary directory for sorting","rust/sortpairs.sh")],RES,["result files of each run"])
p("C17","Spectral data used for matching is exact under every FFT plan",
 "The integer-rounded matching data written for a pair of sequences does not depend on which FFT plan was chosen at run time, nor on which process wrote which side, and two halves of a valid quadruple always receive identical matching keys and are both written (none is discarded by the spectral bound because of rounding).",
 ["configurations","inputs","schedules"],"all FFT plans with normal double-precision rounding, all pairs of sequences, plans differing between the processes that write the two sides",
 "The FFT plan is chosen by timing at run time; tests see whichever plan was chosen, on a few short sequences, with a tolerance.",
 [FO,MA,FW],[("spectral filter","%s: iter_over_enumerate_filtered_couples_psds"%FO),("rounding of PSD, CPSD and correlation values","%s: write_seq_pairs; %s"%(FW,MA))],[("*.pair","matching key and indices per line","results/pairs/<type>/find_<n>/rowsum_*/")],["lines of the .pair files"])
p("C18","The reported counts are true",
 "The counts a completed run reports (numbers of generated pairs, of sequences after reduction and of matrices in its log and on stdout, and the table printed by collect_results.py and countpairs.sh) equal the actual numbers of lines in the files of that run, and collect_results.py reports -1, never a stale or invented number, for a part that was not computed. Clock jumps and interrupted or repeated stages do not change the counts.",
 ["histories","fault_sequences","configurations"],"all types, lengths, flows and stage repetitions, clock jumps forwards and backwards, partially completed runs",
 "No test looks at the log or runs the summary script.",
 ["rust/collect_results.py","rust/countpairs.sh",FW,M,ME,D],[("log lines","%s; %s; %s"%(FW,M,ME)),("log parsing","rust/collect_results.py")],[("result.log","log of the run, parsed by collect_results.py","results/pairs/<type>/find_<n>/")],["result.log, stdout, output of collect_results.py and countpairs.sh"])
p("C19","The expanded list of quaternionic Hadamard matrices is complete and genuine",
 "After a successful qhm-all for a type and length, qhm_all.mat contains exactly one matrix for every sequence that is equivalent, under the equivalences of the type, to a line of result.seq: the normalised (first row and column all 1) quaternionic Hadamard matrix of that sequence. It contains nothing else, whatever hash seeds, read and write granularity, earlier file of that name or interrupted earlier attempt.",
 ["inputs","crash_points","configurations"],"all lists of valid sequences, hash seeds, earlier files and killed attempts",
 "No test generates an equivalence class into a file; the classes are built by iterating over randomly seeded hash sets.",
 [M,EQ,MX,SY],[("closure under the equivalences of the type","%s: generate_equivalent_quad_seqs"%EQ),("normal form","%s: QHM::dephased"%MX),("file is created afresh","%s: qhm_write_all"%M)],[("qhm_all.mat","all matrices of a type and length","results/pairs/<type>/find_<n>/")],["qhm_all.mat"])
p("C20","The amicability verification tells the truth",
 "`amicable n` ends with status 0 exactly when the QT result list of length n could be read completely and every line of it is a sequence of length n that satisfies the QT conditions and is amicable; otherwise it fails. It always ends and changes no file, also when the list is missing, damaged, or a read fails or is interrupted.",
 ["inputs","fault_sequences"],"all lists, correct or damaged in any line, and all read faults",
 "No test runs the command; the predicates are tested on chosen sequences only, never on sequences that violate a single condition.",
 [M,WI],[("conditions are asserted for every line","%s: verify_qts_eq_wts"%M),("predicates","%s: verify_qts, is_amicable"%WI)],[("result.seq","list under verification","results/pairs/qts/find_<n>/")],["exit status of amicable"])
p("C21","Requests that cannot be served are refused and change nothing",
 "A request the scripts or the program cannot serve (an unknown flag, a flag without its value, -s without a SLURM_TMPDIR, a missing or malformed length, a sequence type the program does not name, an unknown subcommand, match option or conversion, a job for a pair or pairing that does not exist, a wrong number of arguments of the program) ends with a non-zero exit status and without computing: whatever the state of the results, every existing file stays as it is, even if -d is among the flags, and no rowsum data is written. Asking a script for its usage message (no arguments, help, -h, --help) gives it, with status 0, and changes nothing.",
 ["inputs","histories","configurations"],"all kinds of malformed requests to driver.sh, pairs.sh, sortpairs.sh and the program, in all states of the results tree",
 "No test calls the scripts or the program's command line.",
 [D,"rust/pairs.sh","rust/sortpairs.sh",M,FW],[("flag and length checks","%s; rust/pairs.sh; rust/sortpairs.sh"%D),("argument parsing","%s: main, str_to_seqtype, str_to_match_option"%M),("pair and pairing of a job","%s: get_indices"%FW)],RES,["exit status and a full snapshot of the results tree"])
p("C22","Every documented flag takes effect, in every combination",
 "Whatever flags a successful run of driver.sh or pairs.sh combines, and in whatever order, grouping or repetition they are given, each takes the documented effect: the intermediate data are, file by file, those the program's pairs stage writes for the pairing given by -p (the last one given; WZ by default) and the matching option (auto/cross correlations with -c, PSD values otherwise), with -d nothing of earlier intermediate data remains, driver.sh leaves a result.mat exactly if -h is given, and with -s sorting puts its temporary files into $SLURM_TMPDIR only.",
 ["configurations","histories"],"all sets, orders and groupings of flags, with and without earlier intermediate data of other options, in all environments",
 "No test calls the scripts; the answer is the same for every pairing and option, so that an ignored flag shows in no result.",
 [D,"rust/pairs.sh","rust/sortpairs.sh"],[("flag parsing","%s; rust/pairs.sh; rust/sortpairs.sh"%D),("options of the pairs stage","%s: str_to_match_option"%M)],RES,["intermediate files, result.mat, places of sort's temporary files"])
# not applicable to this technique
p("N01","Equivalence operations preserve the sequence type and generate orbits","Each equivalence operation maps a quadruple of its sequence type to quadruples of the same type and length, and generating the class from any member gives the same set.",["inputs"],"all quadruples of all lengths","Tests check a handful of quadruples.",[EQ],[("equivalence operations",EQ)])
p("N02","Encoding and decoding of quaternion sequences are inverse","Converting a quadruple of binary sequences to a quaternion sequence, to text and back gives the same quadruple, for every quadruple.",["inputs"],"all quadruples of all lengths","Tests check a few encodings.",[WI,SQ],[("conversion functions","%s; %s"%(WI,SQ))])
p("N03","Product constructions give sequences of the product length and type","Combining two perfect sequences of coprime lengths gives a perfect sequence of the product length.",["inputs"],"all pairs of perfect sequences of coprime lengths","Tests check a few products.",["rust/src/sequences/product.rs"],[("product","rust/src/sequences/product.rs")])
p("N04","The rowsum-equation solver returns exactly the solutions","The equation-based search returns every assignment that satisfies its equations and no other.",["inputs"],"all equation systems it builds","Tests check small systems.",["rust/src/sequences/equations.rs","rust/src/find/find_with_rowsum.rs"],[("solver","rust/src/sequences/equations.rs")])
p("N05","Mutually unbiased matrix routines satisfy their definitions","The routines that build and check unbiased matrices accept exactly the matrices that satisfy the definition.",["inputs"],"all inputs of the routines","Tests check a few matrices.",["rust/src/sequences/mum.rs"],[("construction and check","rust/src/sequences/mum.rs")])
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
