From 1c293bff4ac46e3a205a7066e378f6ab391554eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 01/19] fix: write whole buffers to output files

File::write may transfer fewer bytes than asked (signal, full disk) and its
count was ignored, so a stage could report success with a truncated file.
---
 rust/src/find/find_write.rs              |  8 ++++----
 rust/src/main.rs                         | 14 +++++++-------
 rust/src/sequences/matrix_equivalence.rs |  2 +-
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index 933e241..f1f029b 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -25,7 +25,7 @@ pub fn write_rowsums(p : usize, seqtype : SequenceType) {
 
     let s = rs.iter().map(|e| quad_to_string(*e)).fold("".to_string(), |a,b| a + &b);
 
-    f.write(s.as_bytes()).expect("Error writing file");
+    f.write_all(s.as_bytes()).expect("Error writing file");
 }
 
 
@@ -89,7 +89,7 @@ pub fn write_sequences(sequences : &Vec<Vec<i8>>, tag : &SequenceTag, folder_pat
     let mut f = File::create(path).expect("Invalid file ?");
 
     for seq in sequences {
-        f.write((sequence_to_string(seq) + &"\n").as_bytes()).expect("Error when writing in the file");
+        f.write_all((sequence_to_string(seq) + &"\n").as_bytes()).expect("Error when writing in the file");
     }
 }
 
@@ -229,7 +229,7 @@ pub fn write_seq_pairs(sequences : (&Vec<Vec<i8>>, &Vec<Vec<i8>>), tags : (&Sequ
         counter += 1;
 
         if counter % 1000 == 0 {
-            f.write(buffer.as_bytes()).expect("Error when writing in the file");
+            f.write_all(buffer.as_bytes()).expect("Error when writing in the file");
             buffer = "".to_string();
         }
 
@@ -245,7 +245,7 @@ pub fn write_seq_pairs(sequences : (&Vec<Vec<i8>>, &Vec<Vec<i8>>), tags : (&Sequ
         println!("WARNING (pair {}{}): CPSD values approximate half-integer with error as small as {}", tags.0.to_string(), tags.1.to_string(), min_half_int_difference_cpsd);
     }
     
-    f.write(buffer.as_bytes()).expect("Error when writing in the file");
+    f.write_all(buffer.as_bytes()).expect("Error when writing in the file");
 
     counter
 }
diff --git a/rust/src/main.rs b/rust/src/main.rs
index 6757cdf..0aeb0d0 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -86,7 +86,7 @@ fn find_unique_williamson_type_of_size(i : usize){
     let path = Path::new(s);
     let mut f = File::create(path).expect("Invalid file ?");
     
-    f.write(result.as_bytes()).expect("Error when writing in the file");
+    f.write_all(result.as_bytes()).expect("Error when writing in the file");
 }
 
 fn find_write_quad_seq(i : usize, seqtype : SequenceType){
@@ -117,8 +117,8 @@ fn find_write_quad_seq(i : usize, seqtype : SequenceType){
     let seq_res_string = result.iter().map(|w| w.to_qs().to_string_raw() + &"\n").fold("".to_string(), |s, t| s + &t);
     let qseq_res_string = result.iter().map(|w| w.to_string() + &"\n").fold("".to_string(), |s, t| s + &t);
 
-    f_seq.write(seq_res_string.as_bytes()).expect("Error when writing in the file");
-    f_qseq.write(qseq_res_string.as_bytes()).expect("Error when writing in the file");
+    f_seq.write_all(seq_res_string.as_bytes()).expect("Error when writing in the file");
+    f_qseq.write_all(qseq_res_string.as_bytes()).expect("Error when writing in the file");
 
     // When doing a Williamson-type enumeration, additionally generate an enumeratation up to QT equivalences for the later Hadamard equivalence check
     if matches!(seqtype, SequenceType::WilliamsonType) {
@@ -163,8 +163,8 @@ fn find_write_quad_seq(i : usize, seqtype : SequenceType){
         let mut f_qseq = File::create(path_qseq).expect("Invalid file ?");
         let seq_res_string = qt_reduced.iter().map(|w| w.to_qs().to_string_raw() + &"\n").fold("".to_string(), |s, t| s + &t);
         let qseq_res_string = qt_reduced.iter().map(|w| w.to_string() + &"\n").fold("".to_string(), |s, t| s + &t);
-        f_seq.write(seq_res_string.as_bytes()).expect("Error when writing in the file");
-        f_qseq.write(qseq_res_string.as_bytes()).expect("Error when writing in the file");
+        f_seq.write_all(seq_res_string.as_bytes()).expect("Error when writing in the file");
+        f_qseq.write_all(qseq_res_string.as_bytes()).expect("Error when writing in the file");
     }
 }
 
@@ -202,7 +202,7 @@ fn convert_qs_to_matrices(seqtype : SequenceType, len : usize) {
                 result += &"\n";
             }
         }
-        f.write(result.as_bytes()).expect("Error when writing in the file");
+        f.write_all(result.as_bytes()).expect("Error when writing in the file");
 
         println!("converted {num_seq} sequences of size {len}. {num_non_commutative} contained non-commuting elements.");
     }
@@ -233,7 +233,7 @@ fn qhm_write_all(seqtype : SequenceType, len : usize) {
     for seq in &equ {
         let qhm = QHM::from_pqs(seq.to_qs()).dephased();
         //assert!(qhm.verify());
-        fout.write((qhm.to_string() + &"\n\n".to_string()).as_bytes()).expect("Error when trying to write to file '{path_out}'");
+        fout.write_all((qhm.to_string() + &"\n\n".to_string()).as_bytes()).expect("Error when trying to write to file '{path_out}'");
     }
 }
 
diff --git a/rust/src/sequences/matrix_equivalence.rs b/rust/src/sequences/matrix_equivalence.rs
index 2af4c58..a13fed4 100644
--- a/rust/src/sequences/matrix_equivalence.rs
+++ b/rust/src/sequences/matrix_equivalence.rs
@@ -118,6 +118,6 @@ pub fn hadamard_equivalence_from_file(pathname : String, seqtype : SequenceType)
         result_string += &"\n";
     }
 
-    result_file.write(result_string.as_bytes()).expect("Error when writing in the file");
+    result_file.write_all(result_string.as_bytes()).expect("Error when writing in the file");
 
 }
-- 
2.43.0


From 540fe3a3d8547198f4b3b0423fb7f20a1275e1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 02/19] fix: fail when an input file cannot be read

Read errors were skipped line by line (file_to_sequences) or altogether
(convert qhm), which silently dropped sequences with exit status 0.
---
 rust/src/find/find_write.rs |  5 ++---
 rust/src/main.rs            | 42 ++++++++++++++++++-------------------
 2 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index f1f029b..2adfcbe 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -586,9 +586,8 @@ pub fn file_to_sequences(filename : &String) -> Vec<Vec<i8>> {
     let mut seq = vec![];
 
     for line in read_lines(filename).expect("Error when reading file") {
-        if let Ok(s) = line {
-            seq.push(string_to_sequence(&s));
-        }
+        let s = line.expect("Error when reading file");
+        seq.push(string_to_sequence(&s));
     }
 
     seq
diff --git a/rust/src/main.rs b/rust/src/main.rs
index 0aeb0d0..7b7d5eb 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -180,32 +180,30 @@ fn convert_qs_to_matrices(seqtype : SequenceType, len : usize) {
     let mut num_non_commutative = 0;
 
     println!("{}", &("./results/pairs/".to_string() + &seqtype.to_string() + &"/find_".to_string() + &len.to_string() + &"/result.seq"));
-    if let Ok(lines) = read_lines(&("./results/pairs/".to_string() + &seqtype.to_string() + &"/find_".to_string() + &len.to_string() + &"/result.seq")) {
-        // Consumes the iterator, returns an (Optional) String
-        let s = &("./results/pairs/".to_string() + &seqtype.to_string() + &"/find_".to_string() + &len.to_string() + &"/result.qhm");
-        let path = Path::new(s);
-        let mut f = File::create(path).expect("Invalid file ?");
-
-        let mut result = "".to_string();
-        for line in lines {
-            if let Ok(pqs) = line {
-                num_seq += 1;
-
-                let mut qhm = QHM::from_pqs(QS::from_str(&pqs));
-                qhm.dephase();
-
-                if qhm.contains_non_commuting_elements() {
-                    num_non_commutative += 1;
-                }
+    let lines = read_lines(&("./results/pairs/".to_string() + &seqtype.to_string() + &"/find_".to_string() + &len.to_string() + &"/result.seq")).expect("Error reading file result.seq");
+    // Consumes the iterator, returns an (Optional) String
+    let s = &("./results/pairs/".to_string() + &seqtype.to_string() + &"/find_".to_string() + &len.to_string() + &"/result.qhm");
+    let path = Path::new(s);
+    let mut f = File::create(path).expect("Invalid file ?");
 
-                result += &qhm.to_string();
-                result += &"\n";
-            }
+    let mut result = "".to_string();
+    for line in lines {
+        let pqs = line.expect("Error reading line");
+        num_seq += 1;
+
+        let mut qhm = QHM::from_pqs(QS::from_str(&pqs));
+        qhm.dephase();
+
+        if qhm.contains_non_commuting_elements() {
+            num_non_commutative += 1;
         }
-        f.write_all(result.as_bytes()).expect("Error when writing in the file");
 
-        println!("converted {num_seq} sequences of size {len}. {num_non_commutative} contained non-commuting elements.");
+        result += &qhm.to_string();
+        result += &"\n";
     }
+    f.write_all(result.as_bytes()).expect("Error when writing in the file");
+
+    println!("converted {num_seq} sequences of size {len}. {num_non_commutative} contained non-commuting elements.");
 }
 
 // Write all found QHM of a given order to qhm.mat, using the expanded list including equivalent matrices
-- 
2.43.0


From de6c3ca342c9326cb47afd9dece1944590afb2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 03/19] fix: driver.sh stops and fails when a step fails

The status of 'program | tee' is that of tee, so a failed or killed stage went
unnoticed; a failed compilation, convert hm or convert qhm was not checked.
---
 rust/driver.sh | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/rust/driver.sh b/rust/driver.sh
index b68e9d4..55bf84f 100755
--- a/rust/driver.sh
+++ b/rust/driver.sh
@@ -25,6 +25,9 @@ then
 	exit 0
 fi
 
+# A pipeline into tee fails when the program in front of tee fails
+set -o pipefail
+
 type=$1
 n=$2
 
@@ -77,9 +80,14 @@ done
 release_dir="./target/release/rust"
 if [ $use_slurm = false ]; then
 	# Cargo automatically checks if source files have changed before deciding whether to compile
-	cargo build --release
+	if ! cargo build --release
+	then
+		echo 'ERROR: compilation failed'
+		exit 1
+	fi
 elif [ ! -e $release_dir ]; then
 	echo "ERROR: Binary not found, compile with 'cargo build --release'"
+	exit 1
 fi
 
 filename="$foldername/result.log"
@@ -123,6 +131,11 @@ fi
 if [ $hadamard = true ]; then
 	start2=`date +%s.%N`
 	./target/release/rust convert hm $type $n | tee $filename -a
+	if [ $? -ne 0 ]
+	then
+		echo 'ERROR: convert hm exited unsuccessfully. See log for additional details'
+		exit 1
+	fi
 	end2=`date +%s.%N`
 	elapsed=$(echo "$end2 - $start2" | bc)
 	printf "Converting to matrices up to Hadamard equivalence took %.2f seconds\n" $elapsed | tee $filename -a
@@ -134,6 +147,11 @@ fi
 
 echo "Converting PQS to QHM ..." | tee $filename -a
 ./convert_qhm.sh $type $n
+if [ $? -ne 0 ]
+then
+	echo 'ERROR: convert qhm exited unsuccessfully. See log for additional details'
+	exit 1
+fi
 
 end=`date +%s.%N`
 elapsed=$(echo "$end - $start" | bc)
-- 
2.43.0


From 425f88b546b51fb8b3b21b59fe484fa6043aa340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 04/19] fix: sortpairs.sh fails when sorting fails and can be
 run again

A failed sort left a truncated .sorted file behind with exit status 0. When a
directory was already sorted, the unmatched pattern became a file name and an
empty '*.pair.sorted' was created, which made the join fail.
---
 rust/sortpairs.sh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rust/sortpairs.sh b/rust/sortpairs.sh
index b12c1e0..6f569fb 100755
--- a/rust/sortpairs.sh
+++ b/rust/sortpairs.sh
@@ -43,6 +43,12 @@ do
 	then
 		for filename in $dirname/*.pair;
 		do
+			# Nothing left to sort in this directory
+			if [ ! -e "$filename" ]
+			then
+				continue
+			fi
+
 			# For consistency use a single core to sort, even when more cores are available
 			echo "Sorting file $filename ..." | tee $results -a
 			if [ "$use_slurm" = true ]; then
@@ -54,9 +60,11 @@ do
 			fi
 
 			# If sort was successful, remove .pair files
-			if [ $status -eq 0 ]; then
-				rm $filename
+			if [ $status -ne 0 ]; then
+				echo "ERROR: sorting $filename failed" | tee $results -a
+				exit 1
 			fi
+			rm $filename
 		done
 	fi
 done
-- 
2.43.0


From a86a6c90c98f15dc0d777e00433dd00f70e6664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 05/19] fix: stage scripts report the failure of their program

pairs.sh, convert_hm.sh and convert_qhm.sh returned the status of a later
command, and join_pairs.sh tested the status of date instead of join.
---
 rust/convert_hm.sh  |  8 ++++++++
 rust/convert_qhm.sh |  8 ++++++++
 rust/join_pairs.sh  |  6 +++++-
 rust/pairs.sh       | 15 ++++++++++++++-
 4 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/rust/convert_hm.sh b/rust/convert_hm.sh
index ccd7fc6..5b501ac 100755
--- a/rust/convert_hm.sh
+++ b/rust/convert_hm.sh
@@ -8,6 +8,9 @@ then
 	exit 0
 fi
 
+# A pipeline into tee fails when the program in front of tee fails
+set -o pipefail
+
 type=$1
 n=$2
 filename="./results/pairs/$type/find_$n/result.log"
@@ -15,6 +18,11 @@ filename="./results/pairs/$type/find_$n/result.log"
 # sorting the files
 start2=`date +%s.%N`
 ./target/release/rust convert hm $type $n | tee -a $filename
+if [ $? -ne 0 ]
+then
+	echo 'ERROR: convert hm exited unsuccessfully. See log for additional details'
+	exit 1
+fi
 end2=`date +%s.%N`
 elapsed=$(echo "$end2 - $start2" | bc)
 printf "Converting to matrices up to Hadamard equivalence took %.2f seconds\n" $elapsed
diff --git a/rust/convert_qhm.sh b/rust/convert_qhm.sh
index 83c1e8d..c7ab8b5 100755
--- a/rust/convert_qhm.sh
+++ b/rust/convert_qhm.sh
@@ -8,6 +8,9 @@ then
 	exit 0
 fi
 
+# A pipeline into tee fails when the program in front of tee fails
+set -o pipefail
+
 type=$1
 n=$2
 filename="./results/pairs/$type/find_$n/result.log"
@@ -15,6 +18,11 @@ filename="./results/pairs/$type/find_$n/result.log"
 # sorting the files
 start2=`date +%s.%N`
 ./target/release/rust convert qhm $type $n | tee -a $filename
+if [ $? -ne 0 ]
+then
+	echo 'ERROR: convert qhm exited unsuccessfully. See log for additional details'
+	exit 1
+fi
 end2=`date +%s.%N`
 elapsed=$(echo "$end2 - $start2" | bc)
 printf "Converting to PQS to QHM took %.2f seconds\n" $elapsed | tee -a $filename
diff --git a/rust/join_pairs.sh b/rust/join_pairs.sh
index b197c72..3488348 100755
--- a/rust/join_pairs.sh
+++ b/rust/join_pairs.sh
@@ -19,8 +19,12 @@ filename="$foldername/result.log"
 # sorting the files
 start2=`date +%s`
 ./target/release/rust join $type $n &>> $filename
+status=$?
 end2=`date +%s`
-if [[ $? -eq 0 ]]; then
+if [[ $status -ne 0 ]]; then
+    echo 'ERROR: join exited unsuccessfully. See log for additional details'
+    exit 1
+else
     echo -e "Joining the files together took $((end2 - start2)) seconds. \n\n" >> "./results/pairs/$type/find_$n/result.log"
 fi
 
diff --git a/rust/pairs.sh b/rust/pairs.sh
index 156cba3..6021523 100755
--- a/rust/pairs.sh
+++ b/rust/pairs.sh
@@ -12,6 +12,9 @@ then
 	exit 0
 fi
 
+# A pipeline into tee fails when the program in front of tee fails
+set -o pipefail
+
 type=$1
 n=$2
 
@@ -63,9 +66,14 @@ done
 release_dir="./target/release/rust"
 if [ $use_slurm = false ]; then
 	# Cargo automatically checks if source files have changed before deciding whether to compile
-	cargo build --release
+	if ! cargo build --release
+	then
+		echo 'ERROR: compilation failed'
+		exit 1
+	fi
 elif [ ! -e $release_dir ]; then
 	echo "ERROR: Binary not found, compile with 'cargo build --release'"
+	exit 1
 fi
 
 filename="$foldername/result.log"
@@ -79,6 +87,11 @@ fi
 # Call rust code
 start=`date +%s`
 ./target/release/rust pairs $type $n $match_option $rowsum_pairing | tee $filename
+if [ $? -ne 0 ]
+then
+	echo 'ERROR: pairs exited unsuccessfully. See log for additional details'
+	exit 1
+fi
 end=`date +%s`
 echo Generating the .pair files took `expr $end - $start` seconds. 
 echo -e Generating the .pair files took `expr $end - $start` seconds. "\n \n" >> $filename
-- 
2.43.0


From 233af6d87c4f798913c908553f8360a5335df688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 06/19] fix: create names the same .pair files that pair_single
 fills

The tags were taken in decreasing order of the rowsums, so that the prepared
files and the generated ones had different names and join found three or four
.pair.sorted files in a rowsum directory.
---
 rust/src/find/find_write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index 2adfcbe..fbf56bb 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -348,8 +348,8 @@ pub fn create_rowsum_dirs(folder : String, p : usize, rs : (isize, isize, isize,
     println!("{}",folder_path);
     fs::create_dir_all(&folder_path).expect("Error when creating the dir");
 
-    let (_, indices) = sort(&rs); // we sort the rowsum in decreasing order, and we keep track of their original indices
-    let tags : Vec<SequenceTag> = indices.iter().map(|i| index_to_tag(*i)).collect(); // we convert the indices to their respective tags
+    // The same tags as in write_pairs_rowsum() and write_pair_single_rowsum(), which later fill these files
+    let tags : Vec<SequenceTag> = (0..4).map(|i| index_to_tag(i)).collect();
 
     let path1 : String;
     let path2 : String;
-- 
2.43.0


From ef359c15cbb6700d4e58d9e0dfdecaddbf2eb54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 07/19] fix: keep pairs whose PSD sum equals the bound

A pair can attain the bound 4n exactly; rounding errors of the computed DFT
then made the sum exceed it, so that halves of valid quadruples were dropped
depending on the length and the FFT plan.
---
 rust/src/sequences/fourier.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/src/sequences/fourier.rs b/rust/src/sequences/fourier.rs
index a9d35d0..11d8d95 100644
--- a/rust/src/sequences/fourier.rs
+++ b/rust/src/sequences/fourier.rs
@@ -103,7 +103,8 @@ pub fn iter_over_enumerate_filtered_couples_psds<'a>(sequences1: &'a Vec<Vec<i8>
         let norm1: Vec<f64> = dft1.iter().map(|elm| elm.norm_sqr()).collect();
         let norm2: Vec<f64> = dft2.iter().map(|elm| elm.norm_sqr()).collect();
         
-        let bound_exceeded = norm1.iter().enumerate().zip(norm2.iter().enumerate()).any(|((i1, n1), (i2, n2))| i1 != 0 && i2 != 0 && n1 + n2 > bound);
+        // The bound is attained by some valid pairs, so rounding errors have to be tolerated
+        let bound_exceeded = norm1.iter().enumerate().zip(norm2.iter().enumerate()).any(|((i1, n1), (i2, n2))| i1 != 0 && i2 != 0 && n1 + n2 > bound + 1e-6);
 
         if bound_exceeded {
             None
-- 
2.43.0


From e98507c4c5c501638fd1086a0d740c5374b00bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 08/19] fix: Williamson sequences are not reduced with the
 uniform shift

The canonical representative was taken over shifted quadruples, which are not
symmetric: result.seq listed sequences that are not Williamson sequences, and
convert hm rejected them.
---
 rust/src/find/find_unique.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index 107f68b..7000702 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -190,6 +190,9 @@ pub fn reduce_to_canonical_reps(sequences : &Vec<QuadSeq>, seqtype : SequenceTyp
     let symmetries;
     if matches!(seqtype, SequenceType::QuaternionType) {
         symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift]);
+    } else if matches!(seqtype, SequenceType::Williamson) {
+        // A uniform shift does not preserve symmetry
+        symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_half_shift]);
     } else {
         symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_uniform_half_shift]);
     }
-- 
2.43.0


From e494114cfa9e9a2df0e4731827db25bc4d6ea5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 09/19] hook: brute-force search on the command line under
 cfg(vsim)

---
 rust/src/main.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/rust/src/main.rs b/rust/src/main.rs
index 7b7d5eb..f372bd4 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -1,4 +1,5 @@
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 #[macro_use]
 extern crate lazy_static;
 
@@ -449,6 +450,25 @@ fn main() {
             write_pair_single_rowsum(folder, (a,b,c,d), p, match_option, pairing, pair);
         }
 
+        // Simulation hook (off by default): the parallel brute-force search
+        #[cfg(vsim)]
+        "brute" => {
+            assert_eq!(args.len(), 5, "Invalid args passed");
+            let p = str_to_usize(&args[3]);
+            let symmetry = match args[4].as_str() {
+                "I" => Some(Symmetry::I),
+                "II" => Some(Symmetry::II),
+                "III" => Some(Symmetry::III),
+                "IV" => Some(Symmetry::IV),
+                _ => None
+            };
+            let count = match args[2].as_str() {
+                "pqs" => find_optim::find(p, symmetry),
+                "q24" => find_optim::find_q24(p, symmetry),
+                _ => {panic!("Invalid arguments passed!");}
+            };
+            println!("count {count}");
+        }
 
         _ => {println!("Unrecognized arg '{}'", args[1])}
     }
-- 
2.43.0


From 3b3752c621572300ba1d584d48364ecbf5a6d32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 10/19] fix: joining rejects sequences of another length

---
 rust/src/find/find_write.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index fbf56bb..f81ae08 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -503,6 +503,7 @@ pub fn join_pairs(p : usize, seqtype : SequenceType) -> Vec<QuadSeq>{
         if directory.metadata().unwrap().is_dir() {
             // We read the files in the directory to get back our 4 sets of sequences
             let sequences = get_sequences_from_dir(&directory);
+            assert!([&sequences.0, &sequences.1, &sequences.2, &sequences.3].iter().all(|set| set.iter().all(|seq| seq.len() == p)), "unexpected sequence length in {:?} !", directory.path());
     
             let (pathnames, order) = get_order_from_dir(&directory);
     
-- 
2.43.0


From 1fce8c3204447b4315df5b109bc36efeec9eb07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 11/19] fix: reduce sequences longer than 31 entries correctly

The symbolic symmetry group labels the 4n entries by i8 values, which wrap
around from length 32 on: the join then listed quadruples that are no
sequences of the type, several per class.  Expand such sequences directly.
---
 rust/src/find/find_unique.rs      | 18 +++++++++++++-----
 rust/src/sequences/equivalence.rs |  9 +++++++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index 7000702..832e463 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -5,7 +5,7 @@ use std::collections::HashSet;
 
 use itertools::Itertools;
 
-use crate::sequences::{equivalence::{equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift, equivalent_uniform_half_shift, generate_equivalence_class, generate_equivalence_class_fast, generate_symmetry_group, qt_canonical, will_less_than}, symmetries::SequenceType, williamson::{QuadSeq, QUADRUPLETS}};
+use crate::sequences::{equivalence::{equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift, equivalent_uniform_half_shift, generate_equivalence_class, generate_equivalence_class_fast, generate_symmetry_group, least_canonical, qt_canonical, will_less_than}, symmetries::SequenceType, williamson::{QuadSeq, QUADRUPLETS}};
 
 
 
@@ -187,15 +187,23 @@ pub fn reduce_to_equivalence(sequences : &Vec<QuadSeq>, seqtype : SequenceType,
 }
 
 pub fn reduce_to_canonical_reps(sequences : &Vec<QuadSeq>, seqtype : SequenceType) -> Vec<QuadSeq> {
-    let symmetries;
+    let equivalences : Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>;
     if matches!(seqtype, SequenceType::QuaternionType) {
-        symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift]);
+        equivalences = vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift];
     } else if matches!(seqtype, SequenceType::Williamson) {
         // A uniform shift does not preserve symmetry
-        symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_half_shift]);
+        equivalences = vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_half_shift];
     } else {
-        symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_uniform_half_shift]);
+        equivalences = vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_uniform_half_shift];
     }
 
+    let n = sequences[0].size();
+    if 4*n > i8::MAX as usize {
+        // The symmetry group labels the 4n entries by i8 values, so longer sequences are handled one by one
+        return sequences.iter().map(|seq| least_canonical(&generate_equivalence_class(seq, seqtype, &equivalences, false), seqtype)).unique().collect();
+    }
+
+    let symmetries = generate_symmetry_group(n, seqtype, &equivalences);
+
     sequences.iter().map(|seq| qt_canonical(seq, &symmetries, seqtype)).unique().collect()
 }
diff --git a/rust/src/sequences/equivalence.rs b/rust/src/sequences/equivalence.rs
index aa4b659..c87d1df 100644
--- a/rust/src/sequences/equivalence.rs
+++ b/rust/src/sequences/equivalence.rs
@@ -286,14 +286,19 @@ fn swap(will : &mut QuadSeq, seqtag1 : SequenceTag, seqtag2 : SequenceTag) {
 
 // Should be called with a symmetry group generated by {DE, AN, CS}
 pub fn qt_canonical(seq : &QuadSeq, symmetries : &HashSet<QuadSeq>, seqtype : SequenceType) -> QuadSeq {
+    least_canonical(&generate_equivalence_class_fast(seq, symmetries), seqtype)
+}
+
+// Finds the least NS canonical form (SN and SS canonical form for Williamson sequences) in a class closed under the other operations
+pub fn least_canonical(class : &HashSet<QuadSeq>, seqtype : SequenceType) -> QuadSeq {
     let ns_canonical_forms : HashSet<QuadSeq>;
 
     match seqtype {
         SequenceType::QuaternionType => {
-            ns_canonical_forms = generate_equivalence_class_fast(seq, symmetries).into_iter().map(|s| ns_canonical(&s)).collect();
+            ns_canonical_forms = class.iter().map(|s| ns_canonical(s)).collect();
         },
         SequenceType::WilliamsonType | SequenceType::Williamson => {
-            ns_canonical_forms = generate_equivalence_class_fast(seq, symmetries).into_iter().map(|s| sn_ss_canonical(&s)).collect();
+            ns_canonical_forms = class.iter().map(|s| sn_ss_canonical(s)).collect();
         },
         _ => {panic!("Not implemented yet")}
     }
-- 
2.43.0


From 71172b7faeeb7c5a6bbf789392480fcde0796911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 12/19] fix: joining rowsum directories without solutions gives
 an empty list

---
 rust/src/find/find_unique.rs | 4 ++++
 rust/src/find/find_write.rs  | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index 832e463..228181b 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -197,6 +197,10 @@ pub fn reduce_to_canonical_reps(sequences : &Vec<QuadSeq>, seqtype : SequenceTyp
         equivalences = vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_uniform_half_shift];
     }
 
+    if sequences.is_empty() {
+        return vec![];
+    }
+
     let n = sequences[0].size();
     if 4*n > i8::MAX as usize {
         // The symmetry group labels the 4n entries by i8 values, so longer sequences are handled one by one
diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index f81ae08..4c77061 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -496,11 +496,14 @@ pub fn join_pairs(p : usize, seqtype : SequenceType) -> Vec<QuadSeq>{
     let folder = seqtype.to_string();
 
     let find_i = fs::read_dir("./results/pairs/".to_string() + &folder + &"/find_".to_string() + &p.to_string()).unwrap();
+    let mut directories = 0;
 
     for rowsum_x_y in find_i {
         let directory = rowsum_x_y.unwrap();
 
         if directory.metadata().unwrap().is_dir() {
+            directories += 1;
+
             // We read the files in the directory to get back our 4 sets of sequences
             let sequences = get_sequences_from_dir(&directory);
             assert!([&sequences.0, &sequences.1, &sequences.2, &sequences.3].iter().all(|set| set.iter().all(|seq| seq.len() == p)), "unexpected sequence length in {:?} !", directory.path());
@@ -512,6 +515,8 @@ pub fn join_pairs(p : usize, seqtype : SequenceType) -> Vec<QuadSeq>{
         }
     }
 
+    assert!(directories > 0, "no rowsum directories to join !");
+
     let elapsed = time.elapsed().as_secs_f32();
     println!("Matching took: {:.2} seconds.", elapsed);
 
-- 
2.43.0


From 0953fe3c5953631affb3a18d545fa1607d68bbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:05 +0000
Subject: [PATCH 13/19] fix: [C21] refuse unknown flags

The pattern /?) of driver.sh, pairs.sh and sortpairs.sh never matched what
getopts reports for an unknown flag or a missing value, so the scripts went on
and ignored it.
---
 rust/driver.sh    | 2 +-
 rust/pairs.sh     | 2 +-
 rust/sortpairs.sh | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/driver.sh b/rust/driver.sh
index 55bf84f..39247f1 100755
--- a/rust/driver.sh
+++ b/rust/driver.sh
@@ -62,7 +62,7 @@ while getopts "chsdp:" flag; do
 		c)
 		match_option="correlation"
 		;;
-		/?)
+		\?)
 		echo "Invalid argument(s) passed. Exiting."
 		exit 1
 		;;
diff --git a/rust/pairs.sh b/rust/pairs.sh
index 6021523..590f725 100755
--- a/rust/pairs.sh
+++ b/rust/pairs.sh
@@ -47,7 +47,7 @@ while getopts "cdsp:" flag; do
 		c)
 		match_option="correlation"
 		;;
-		/?)
+		\?)
 		echo "Invalid argument(s) passed. Exiting."
 		exit 1
 		;;
diff --git a/rust/sortpairs.sh b/rust/sortpairs.sh
index 6f569fb..da54f0b 100755
--- a/rust/sortpairs.sh
+++ b/rust/sortpairs.sh
@@ -27,7 +27,7 @@ while getopts "s" flag; do
 		s)
 		use_slurm=true
 		;;
-		/?)
+		\?)
 		echo "Invalid argument(s) passed. Exiting."
 		exit 1
 		;;
-- 
2.43.0


From 2bec20559adcd6a125eee05ba46e782a132239a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:05 +0000
Subject: [PATCH 14/19] fix: [C12] refuse lengths written as 04 or +4

The check for existing data looked at find_04 while the program read the same
argument as 4 and overwrote find_4, without -d.
---
 rust/driver.sh | 6 ++++++
 rust/pairs.sh  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/rust/driver.sh b/rust/driver.sh
index 39247f1..dbe2afc 100755
--- a/rust/driver.sh
+++ b/rust/driver.sh
@@ -36,6 +36,12 @@ if [ -z "$type" ] || [ -z "$n" ]; then
 	exit 1
 fi
 
+# The program takes 04 or +4 for 4, but the directory of that name is another one
+if [[ ! $n =~ ^[1-9][0-9]*$ ]]; then
+	echo 'The length must be a positive number without leading zeros or signs.'
+	exit 1
+fi
+
 shift
 shift
 foldername="./results/pairs/$type/find_$n"
diff --git a/rust/pairs.sh b/rust/pairs.sh
index 590f725..8826c0e 100755
--- a/rust/pairs.sh
+++ b/rust/pairs.sh
@@ -26,6 +26,12 @@ if [ -z "$type" ] || [ -z "$n" ]; then
 	exit 1
 fi
 
+# The program takes 04 or +4 for 4, but the directory of that name is another one
+if [[ ! $n =~ ^[1-9][0-9]*$ ]]; then
+	echo 'The length must be a positive number without leading zeros or signs.'
+	exit 1
+fi
+
 # Manage flags
 shift
 shift
-- 
2.43.0


From b56b50e04dae28cb4066ea8cdc391bde15fab919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:11 +0000
Subject: [PATCH 15/19] fix: [C21] fail on unknown subcommands and on jobs for
 no existing pair

An unknown subcommand, and pair_single with a pair other than 1 or 2 or without
a pairing, printed a message and ended with status 0, as if the job were done.
---
 rust/src/find/find_write.rs | 3 +--
 rust/src/main.rs            | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index 4c77061..d9d0d6f 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -297,8 +297,7 @@ pub fn write_pair_single_rowsum(folder : String, rs : (isize, isize, isize, isiz
     match get_indices(pairing, pair) {
         Some(s) => {pair_indices = s},
         None => {
-            println!("ERROR: get_indices() returned None");
-            return;
+            panic!("ERROR: get_indices() returned None");
         }
     }
 
diff --git a/rust/src/main.rs b/rust/src/main.rs
index f372bd4..e3bbffc 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -470,6 +470,6 @@ fn main() {
             println!("count {count}");
         }
 
-        _ => {println!("Unrecognized arg '{}'", args[1])}
+        _ => {panic!("Unrecognized arg '{}'", args[1])}
     }
 }
-- 
2.43.0


From 27f2cdf6c4880fabd1b22a6d00ac19364a539765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:32 +0000
Subject: [PATCH 16/19] fix: [C20] amicable: check the length of the listed
 sequences

A sequence of another length in result.seq, such as a last line cut short, was
taken for a verified QT sequence of the requested length.
---
 rust/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/src/main.rs b/rust/src/main.rs
index e3bbffc..49eeba5 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -280,6 +280,7 @@ fn verify_qts_eq_wts(p : usize) {
     let qts_list : Vec<QuadSeq> = seqs.iter().map(|s| QuadSeq::from_pqs(s)).collect();
 
     for qts in &qts_list {
+        assert_eq!(qts.size(), p, "Sequence has the wrong length: {}", qts.to_string());
         assert!(qts.verify_qts(), "Sequence fails auto/cross correlation condition: {}", qts.to_string());
         assert!(qts.is_amicable(), "Valid QTS fails amicabililty condition: {}", qts.to_string());
     }
-- 
2.43.0


From b8a0c1bd5421a02639e1c50c36d383ce1fbaceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 17/19] fix: -d deletes only once all flags have been
 understood

driver.sh and pairs.sh called pair_file_cleanup.sh while still reading the
flags, so a request refused because of a later flag had already deleted the
existing data.
---
 rust/driver.sh | 7 ++++++-
 rust/pairs.sh  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/rust/driver.sh b/rust/driver.sh
index dbe2afc..028d49d 100755
--- a/rust/driver.sh
+++ b/rust/driver.sh
@@ -47,6 +47,7 @@ shift
 foldername="./results/pairs/$type/find_$n"
 rowsum_pairing="WZ"
 use_slurm=false
+delete=false
 hadamard=false
 match_option="psd"
 
@@ -60,7 +61,7 @@ while getopts "chsdp:" flag; do
 		hadamard=true
 		;;
 		d)
-		./pair_file_cleanup.sh $type $n
+		delete=true
 		;;
 		p)
 		rowsum_pairing=$OPTARG
@@ -75,6 +76,10 @@ while getopts "chsdp:" flag; do
 	esac
 done
 
+if [ $delete = true ]; then
+	./pair_file_cleanup.sh $type $n
+fi
+
 # Check if rowsum directories still exist
 for d in "$foldername"/rowsum_*; do
   if [ -d "$d" ]; then
diff --git a/rust/pairs.sh b/rust/pairs.sh
index 8826c0e..8607179 100755
--- a/rust/pairs.sh
+++ b/rust/pairs.sh
@@ -37,6 +37,7 @@ shift
 shift
 
 use_slurm=false
+delete=false
 rowsum_pairing="WZ"
 match_option="psd"
 while getopts "cdsp:" flag; do
@@ -45,7 +46,7 @@ while getopts "cdsp:" flag; do
 		use_slurm=true
 		;;
 		d)
-		./pair_file_cleanup.sh $type $n
+		delete=true
 		;;
 		p)
 		rowsum_pairing=$OPTARG
@@ -60,6 +61,10 @@ while getopts "cdsp:" flag; do
 	esac
 done
 
+if [ $delete = true ]; then
+	./pair_file_cleanup.sh $type $n
+fi
+
 # Check if rowsum directories still exist
 for d in "$foldername"/rowsum_*; do
   if [ -d "$d" ]; then
-- 
2.43.0


From 8065a1fba68a1fc86bd2238d1839d9fa7232d847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:36 +0000
Subject: [PATCH 18/19] fix: [C14] pair_file_cleanup.sh: read lengths as
 decimal numbers, refuse words

A length with a leading zero was read as octal (010 cleaned length 8), and
a word stood for length 0.
---
 rust/pair_file_cleanup.sh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rust/pair_file_cleanup.sh b/rust/pair_file_cleanup.sh
index 3edaf2d..262dd24 100755
--- a/rust/pair_file_cleanup.sh
+++ b/rust/pair_file_cleanup.sh
@@ -17,6 +17,17 @@ else
     exit 0
 fi
 
+# Bash arithmetic would take a word for 0 and 010 for 8
+for k in "$START" "$END"
+do
+    if [[ ! $k =~ ^[0-9]+$ ]]; then
+        echo "'$k' is not a length."
+        exit 1
+    fi
+done
+START=$((10#$START))
+END=$((10#$END))
+
 base_dir="results/pairs/$type"
 for (( i=START; i<=END; i++ ))
 do
-- 
2.43.0


From ac13186c873b278c862d24b9e6b04714b92c10a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:21 +0000
Subject: [PATCH 19/19] fix: [C21] driver.sh, sortpairs.sh: refuse -s when
 SLURM_TMPDIR is not set

The unquoted empty variable made sort take the .pair file for the directory
of -T and sort its standard input instead; the .pair file was then removed,
and the run ended with status 0 and an empty result.
---
 rust/driver.sh    | 5 +++++
 rust/sortpairs.sh | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/rust/driver.sh b/rust/driver.sh
index 028d49d..e6f65f8 100755
--- a/rust/driver.sh
+++ b/rust/driver.sh
@@ -76,6 +76,11 @@ while getopts "chsdp:" flag; do
 	esac
 done
 
+if [ $use_slurm = true ] && [ -z "$SLURM_TMPDIR" ]; then
+	echo 'The -s flag needs SLURM_TMPDIR to be set.'
+	exit 1
+fi
+
 if [ $delete = true ]; then
 	./pair_file_cleanup.sh $type $n
 fi
diff --git a/rust/sortpairs.sh b/rust/sortpairs.sh
index da54f0b..5e03219 100755
--- a/rust/sortpairs.sh
+++ b/rust/sortpairs.sh
@@ -34,6 +34,12 @@ while getopts "s" flag; do
 	esac
 done
 
+# Without a directory for -T, sort would take the .pair file for it and sort its standard input
+if [ "$use_slurm" = true ] && [ -z "$SLURM_TMPDIR" ]; then
+	echo 'The -s flag needs SLURM_TMPDIR to be set.'
+	exit 1
+fi
+
 export LC_ALL=C
 
 start=`date +%s.%N`
-- 
2.43.0

