From 02790cb2e0fce229b41c011866dc755d66a69b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 01/33] fix: garbage-collect the most recently allocated pool
 node too

GCPool::GC() skipped the last allocated node when unmarking and when
sweeping. That node kept its stale mark, was treated as already visited
(so what it points to was swept while still in use) and could itself
never be collected, which corrupted word histories.
---
 src/pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pool.h b/src/pool.h
index 0fc9198..7441fd8 100644
--- a/src/pool.h
+++ b/src/pool.h
@@ -184,7 +184,7 @@ class GCPool : public Pool<T, BLOCK_SIZE> {
     // Unmark all elements
     for (int block = 0; block <= this->current_block_; ++block) {
       int max_pos = block == this->current_block_ ?
-          this->current_pos_ - 1 :
+          this->current_pos_ :
           BLOCK_SIZE;
       for (int pos = 0; pos < max_pos; ++pos) {
         // Bypass the nodes already freed
@@ -217,7 +217,7 @@ class GCPool : public Pool<T, BLOCK_SIZE> {
     int free_count = 0;
     for (int block = 0; block <= this->current_block_; ++block) {
       int max_pos = block == this->current_block_ ?
-          this->current_pos_ - 1 :
+          this->current_pos_ :
           BLOCK_SIZE;
       for (int pos = 0; pos < max_pos; ++pos) {
         // Bypass the nodes already freed
-- 
2.43.0


From f6eb034c02f37c9bbd0705b347912b70034b330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:52 +0000
Subject: [PATCH 02/33] fix: keep (log-)softmax finite for large activations

exp() overflowed for activations above 88, so the layer's output became
NaN or -inf and the whole utterance was decoded to an empty transcript.
Subtract the row maximum first.
---
 src/vector.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/vector.cc b/src/vector.cc
index b2584a0..912ca07 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -95,8 +95,14 @@ template<typename Real>
 void VectorBase<Real>::ApplySoftMax() {
   Real sum = 0;
 
+  // Subtract the maximum so that exp() never overflows
+  Real max = Dim() > 0 ? (*this)(0) : 0;
+  for (int i = 1; i < Dim(); ++i) {
+    if ((*this)(i) > max) max = (*this)(i);
+  }
+
   for (int i = 0; i < Dim(); ++i) {
-    Real exp_d = expf((*this)(i));
+    Real exp_d = expf((*this)(i) - max);
     (*this)(i) = exp_d;
     sum += exp_d;
   }
@@ -110,11 +116,17 @@ template<typename Real>
 void VectorBase<Real>::ApplyLogSoftMax() {
   Real sum = 0;
 
+  // Subtract the maximum so that exp() never overflows
+  Real max = Dim() > 0 ? (*this)(0) : 0;
+  for (int i = 1; i < Dim(); ++i) {
+    if ((*this)(i) > max) max = (*this)(i);
+  }
+
   for (int i = 0; i < Dim(); ++i) {
-    Real exp_d = exp((*this)(i));
+    Real exp_d = exp((*this)(i) - max);
     sum += exp_d;
   }
-  Real logsum = log(sum);
+  Real logsum = max + log(sum);
   
   for (int i = 0; i < Dim(); ++i) {
     (*this)(i) -= logsum;
-- 
2.43.0


From 7b4f1cc69d28b91544251f79311c1fb28bb43086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 03/33] fix: count the final cost of the best path exactly once

BestPath() added the graph's final weight to best_cost, which already
contains it after the end of the stream, and made the score of a partial
hypothesis infinite when its state is not final.
---
 src/decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index c1c7c43..631be1f 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -424,8 +424,8 @@ Decoder::Hypothesis Decoder::BestPath() {
     assert(words.size() < 100000);
   }
 
+  // Final costs are already part of best_cost when the stream is ended
   weight = best_cost;
-  weight += fst_->Final(best_tok->state().hclg_state()).Value();
 
   return Hypothesis(words, weight);
 }
-- 
2.43.0


From 5b64991be0c15a5c1f25b225f4c8ed17c0859e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 04/33] fix: check the utterance before using it in
 ce_stt_end_of_stream

A NULL utterance was dereferenced before it was rejected.
---
 src/ce_stt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 0cf0ff1..34303f9 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -341,11 +341,11 @@ pasco_process_failed:
 
 void ce_stt_end_of_stream(ce_utt_t *c_utt) {
   PK_DEBUG("pasco_end_of_stream()");
-  ce_utt_internal_t *utt = c_utt->internal;
 
   if (CE_STT_FAILED == CheckParamUtt(c_utt)) {
     return;
   }
+  ce_utt_internal_t *utt = c_utt->internal;
   const ce_stt_t *recognizer = c_utt->internal->recognizer;
 
   // Process remained frames in AM
-- 
2.43.0


From cb9866d169f1af408935b8ce3628c806aa07a175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 05/33] fix: do not score the last frames again when a stream
 is ended twice

AcousticModel::EndOfStream() left its frames in the buffer, so that a
second ce_stt_end_of_stream() padded and decoded them once more.
---
 src/am.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/am.cc b/src/am.cc
index f2e4bfa..a706c4b 100644
--- a/src/am.cc
+++ b/src/am.cc
@@ -161,6 +161,10 @@ void AcousticModel::EndOfStream(Instance *inst, Matrix<float> *log_prob) const {
   }
 
   ComputeBatch(inst, kBatchSizeAll, log_prob);
+
+  // All frames are consumed, so that they are not scored again when the stream
+  // is ended twice
+  inst->feats_buffer.clear();
 }
 
 }  // namespace pocketkaldi
-- 
2.43.0


From 13f8f4450f555df2f2df3a92579c3aa1ec75a2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 06/33] fix: release the recognizer structure in ce_stt_destroy

It is allocated by ce_stt_init() and was never freed.
---
 src/ce_stt.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 34303f9..0d9e4ca 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -251,6 +251,8 @@ void ce_stt_destroy(ce_stt_t *recognizer) {
 
   delete recognizer->fbank;
   recognizer->fbank = NULL;
+
+  delete recognizer;
 }
 
 ce_utt_t *ce_utt_init(ce_stt_t *recognizer, const ce_wave_format_t *format) {
-- 
2.43.0


From df8942bb0c0422f390b6c8f3538c64c7a8fd2c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 07/33] fix: accept text files without a newline after the last
 line

After such a line ReadLine() reported an I/O error instead of the end of
the file, so symbol tables and scp files without a trailing newline were
rejected.
---
 src/util.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 34eaf8f..29d2dde 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -88,10 +88,9 @@ Status ReadableFile::Open(const std::string &filename) {
 }
 
 bool ReadableFile::ReadLine(std::string *line, Status *status) {
-  // Failed if it already reached EOF
+  // Nothing to read if it already reached EOF, for example when the last line
+  // is not terminated by a newline
   if (feof(fd_)) {
-    *status = Status::IOError(
-        util::Format("EOF already reached: {}", filename_));
     return false;
   }
 
-- 
2.43.0


From fce09e81d64abedd65ad45c8f94eba0c9ef8a0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 08/33] fix: report read errors of matrix rows

Matrix::Read() ignored the status of reading a row, so a truncated or
unreadable file could load with the previous row's values or garbage.
---
 src/matrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.cc b/src/matrix.cc
index 6653dae..2e23160 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -175,7 +175,7 @@ Status Matrix<Real>::Read(util::ReadableFile *fd) {
   Vector<Real> row_read;
   for (int row_idx = 0; row_idx < this->NumRows(); ++row_idx) {
     SubVector<Real> row = this->Row(row_idx);
-    row_read.Read(fd);
+    PK_CHECK_STATUS(row_read.Read(fd));
     if (row_read.Dim() != this->NumCols()) {
       return Status::Corruption(util::Format(
           "Matrix::Read: row_read.Dim() == {} expected, but {} found: {}",
-- 
2.43.0


From 764caa8d00709236c7c06018750b83e7878643bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 09/33] fix: return an empty feature matrix for empty audio

A matrix with 0 rows and 40 columns is refused by Matrix::Resize(), so
processing an empty wave aborted.
---
 src/fbank.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fbank.cc b/src/fbank.cc
index 578b20e..e601635 100644
--- a/src/fbank.cc
+++ b/src/fbank.cc
@@ -268,7 +268,7 @@ void Fbank::Process(
     Matrix<float> *fbank_feature) const {
   // Do nothing when wave is empty
   if (wave.Dim() == 0) {
-    fbank_feature->Resize(0, PK_FBANK_DIM);
+    fbank_feature->Resize(0, 0);
     return;
   }
 
-- 
2.43.0


From 694cd1cac519fb41097a487abd6db886d8ca259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 10/33] fix: do not read the best token of an empty beam

Once no path survives a frame the beam is empty, and GetCutoff() read
prev_toks_[0] of an empty vector for every following frame.
---
 src/decoder.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decoder.cc b/src/decoder.cc
index 631be1f..0255e1d 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -180,6 +180,10 @@ bool Decoder::InsertTok(
 
 double Decoder::GetCutoff(float *adaptive_beam, Token **best_tok) {
   double best_cost = INFINITY;
+
+  // No token survived the previous frame
+  *best_tok = nullptr;
+  if (prev_toks_.empty()) return INFINITY;
   *best_tok = prev_toks_[0];
 
   costs_.clear();
-- 
2.43.0


From 5fe1494cc50e316edb048d68be291cda205afbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 11/33] fix: return pruned and replaced tokens to the token
 pool

Tokens outside the beam and tokens replaced by a cheaper one were dropped
without being deallocated, so the pool grew for as long as an utterance
lasted.
---
 src/decoder.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index 0255e1d..59906c8 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -170,7 +170,9 @@ bool Decoder::InsertTok(
     // If the cost of existing token is less than the new one, just discard
     // inserting and return false
     if (toks_[tok_idx]->cost() > cost) {
+      Token *replaced = toks_[tok_idx];
       toks_[tok_idx] = toks_pool_.Alloc(next_state, cost, next_olabel);
+      toks_pool_.Dealloc(replaced);
     } else {
       return false;
     }
@@ -311,7 +313,11 @@ float Decoder::ProcessEmitting(const VectorBase<float> &frame_logp) {
   float weight_cutoff = GetCutoff(&adaptive_beam, &best_tok);
   PK_DEBUG(util::Format("weight_cutoff = {}", weight_cutoff));
   PK_DEBUG(util::Format("adaptive_beam = {}", adaptive_beam));
-  if (!std::isfinite(weight_cutoff)) return INFINITY;
+  if (!std::isfinite(weight_cutoff)) {
+    for (Token *tok : prev_toks_) toks_pool_.Dealloc(tok);
+    prev_toks_.clear();
+    return INFINITY;
+  }
 
   // This is the cutoff we use after adding in the log-likes (i.e.
   // for the next frame).  This is a bound on the cutoff we will use
@@ -343,7 +349,10 @@ float Decoder::ProcessEmitting(const VectorBase<float> &frame_logp) {
 
     // weight_cutoff is computed according to beam size
     // So there are only top beam_size toks less than weight_cutoff
-    if (from_tok->cost() > weight_cutoff) continue;
+    if (from_tok->cost() > weight_cutoff) {
+      toks_pool_.Dealloc(from_tok);
+      continue;
+    }
 
     for (fst::ArcIterator<fst::Fst<fst::StdArc>> arc_iter(*fst_, state.hclg_state());
          !arc_iter.Done();
-- 
2.43.0


From 04b8709651bf32a47a179f21d9f1b957292b6f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 12/33] fix: report a non-integer configuration value as an
 error

std::stoi() throws for such a value, and the exception left ce_stt_init()
through the C interface.
---
 src/configuration.cc | 13 ++++++++++++-
 src/configuration.h  | 13 +++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/configuration.cc b/src/configuration.cc
index 6a05c20..3be776f 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -2,6 +2,9 @@
 
 #include "configuration.h"
 
+#include <errno.h>
+#include <limits.h>
+#include <stdlib.h>
 #include <string>
 #include <vector>
 #include "util.h"
@@ -84,7 +87,15 @@ std::string Configuration::GetStringOrElse(
 int Configuration::GetIntegerOrElse(const std::string &key, int default_val) const {
   std::string int_string = GetStringOrElse(key, kDefaultString);
   if (int_string == kDefaultString) return default_val;
-  return std::stoi(int_string);
+
+  char *end = nullptr;
+  errno = 0;
+  long int_val = strtol(int_string.c_str(), &end, 10);
+  if (end == int_string.c_str() || errno == ERANGE ||
+      int_val < INT_MIN || int_val > INT_MAX) {
+    return default_val;
+  }
+  return static_cast<int>(int_val);
 }
 
 }  // namespace pocketkaldi
diff --git a/src/configuration.h b/src/configuration.h
index d4cc76a..7c78ec0 100644
--- a/src/configuration.h
+++ b/src/configuration.h
@@ -25,7 +25,8 @@ class Configuration {
       const std::string &default_val) const;
 
   // Get a different type of value from configuration file. If the key not
-  // exist, returns `default_val`
+  // exist (or the value is not an integer in GetIntegerOrElse), returns
+  // `default_val`
   std::string GetStringOrElse(
       const std::string &key,
       const std::string &default_val) const;
@@ -45,8 +46,16 @@ class Configuration {
     return Status::OK();
   }
   Status GetInteger(const std::string &key, int *val) const {
+    std::string int_string;
+    PK_CHECK_STATUS(GetString(key, &int_string));
     int int_val = GetIntegerOrElse(key, INT_MIN);
-    if (int_val == INT_MIN) return KeyNotFound(key);
+    if (int_val == INT_MIN) {
+      return Status::Corruption(util::Format(
+          "Unexpected integer for key '{}' in '{}': {}",
+          key,
+          filename(),
+          int_string));
+    }
     *val = int_val;
     return Status::OK();
   }
-- 
2.43.0


From bf9d81e2e6788742ed3e211fc62572f9a744756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 13/33] fix: reject missing and out-of-range word ids in a
 symbol table

A negative id was written before the start of the word array, and an
empty id was read as 0.
---
 src/symbol_table.cc | 7 +++++++
 src/util.cc         | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/symbol_table.cc b/src/symbol_table.cc
index 7282be3..64ffa54 100644
--- a/src/symbol_table.cc
+++ b/src/symbol_table.cc
@@ -3,6 +3,7 @@
 #include "symbol_table.h"
 
 #include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include "util.h"
 
@@ -33,6 +34,12 @@ Status SymbolTable::Read(const std::string &filename) {
     long word_id = 0;
     PK_CHECK_STATUS(util::StringToLong(fields[1], &word_id));
     
+    if (word_id < 0 || word_id > INT_MAX) {
+      return Status::Corruption(util::Format(
+          "symbol_table: word id out of range: {}",
+          line));
+    }
+
     word_ids_[word] = word_id;
     if (word_id >= words_.size()) words_.resize(word_id + 1);
     words_[word_id] = word;
diff --git a/src/util.cc b/src/util.cc
index 29d2dde..e95e834 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -52,7 +52,7 @@ Status StringToLong(const std::string &str, long *val) {
   std::string trim_str = Trim(str);
   char *end = nullptr;
   *val = strtol(trim_str.c_str(), &end, 0);
-  if (*end != '\0') {
+  if (end == trim_str.c_str() || *end != '\0') {
     return Status::Corruption(Format("unexpected number string: {}", trim_str));
   }
   
-- 
2.43.0


From 020f3729ec4401a74d604a9eb7a796b62674cbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 14/33] fix: reject negative dimensions in model files

They passed the size check (which wraps around) or had none, and then
aborted or threw instead of failing the load.
---
 src/fst.cc    | 3 ++-
 src/matrix.cc | 8 ++++++++
 src/vector.cc | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fst.cc b/src/fst.cc
index 232b7dd..d502486 100644
--- a/src/fst.cc
+++ b/src/fst.cc
@@ -82,7 +82,8 @@ Status Fst::Read(util::ReadableFile *fd) {
       sizeof(start_state) +
       state_number * (sizeof(final_.front()) + sizeof(state_idx_.front())) +
       arc_number * sizeof(FstArc);
-  if (expected_section_size != section_size) {
+  if (state_number < 0 || arc_number < 0 ||
+      expected_section_size != section_size) {
     return Status::Corruption(util::Format(
         "section_size == {} expected, but {} found",
         expected_section_size,
diff --git a/src/matrix.cc b/src/matrix.cc
index 2e23160..bf65671 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -169,6 +169,14 @@ Status Matrix<Real>::Read(util::ReadableFile *fd) {
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_rows));
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_cols));
 
+  if (num_rows < 0 || num_cols < 0 || (num_rows == 0) != (num_cols == 0)) {
+    return Status::Corruption(util::Format(
+        "Matrix::Read: unexpected size {} x {}: {}",
+        num_rows,
+        num_cols,
+        fd->filename()));
+  }
+
   // Resize the matrix according to the new size
   Resize(num_rows, num_cols, kUndefined);
 
diff --git a/src/vector.cc b/src/vector.cc
index 912ca07..6d5940f 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -294,7 +294,7 @@ Status Vector<Real>::Read(util::ReadableFile *fd) {
   int32_t dim;
   status = fd->ReadValue<int32_t>(&dim);
   if (!status.ok()) return status;
-  if (dim * sizeof(Real) + 4 != section_size) {
+  if (dim < 0 || dim * sizeof(Real) + 4 != section_size) {
     return Status::Corruption(util::Format(
         "section_size = {} * {} + 4 expected, but {} found: {}",
         dim,
-- 
2.43.0


From 4f2562298645aa8eb02782a93118b34abae53d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 15/33] fix: do not print a transcript for audio that could not
 be read

A read error in the middle of a wave file was taken for its end, and the
transcript of the part before it was printed as if it were complete.
---
 src/main.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.cc b/src/main.cc
index ce1c41f..aa8677d 100644
--- a/src/main.cc
+++ b/src/main.cc
@@ -40,8 +40,11 @@ std::string ProcessAudio(ce_stt_t *recognizer, const std::string &filename) {
     int bytes_read = fread(buffer, 1, sizeof(buffer), fd);
     if (bytes_read == 0) break;
 
-    ce_stt_process(utt, buffer, bytes_read);
+    if (CE_STT_FAILED == ce_stt_process(utt, buffer, bytes_read)) {
+      Fatal(ce_stt_last_error());
+    }
   }
+  if (ferror(fd)) Fatal("failed to read: " + filename);
 
   ce_stt_end_of_stream(utt);
   std::string hyp = utt->hyp;
-- 
2.43.0


From c07574fd2d72d1b6f90dcbbe001350e9c2446034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 16/33] fix: release the buckets when the hash table fails to
 grow

The new bucket array was leaked when allocating its empty[] array threw.
---
 src/hashtable.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hashtable.h b/src/hashtable.h
index 61e5169..bca2e94 100644
--- a/src/hashtable.h
+++ b/src/hashtable.h
@@ -126,7 +126,13 @@ class HashTable {
   // Create and initialize buckets and is_empty array
   void CreateBuckets(Item **buckets, bool **empty, int bucket_size) const {
     *buckets = new Item[bucket_size];
-    *empty = new bool[bucket_size];
+    try {
+      *empty = new bool[bucket_size];
+    } catch (...) {
+      delete[] *buckets;
+      *buckets = NULL;
+      throw;
+    }
     for (int i = 0; i < bucket_size; ++i) {
       (*empty)[i] = true;
     }
-- 
2.43.0


From 88e3a474688b1f57cd7d4f7e7b21f6679c8ac487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 17/33] fix: never let the hash table fill every bucket a key
 is probed at

With a prime of the form 4k+1 (or 2) quadratic probing visits only about
half of the buckets. One element too many was admitted before growing, so
a lookup of an absent key could find no empty bucket and never ended.
---
 src/hashtable.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hashtable.h b/src/hashtable.h
index bca2e94..04570c0 100644
--- a/src/hashtable.h
+++ b/src/hashtable.h
@@ -54,8 +54,9 @@ class HashTable {
 
   // Insert or update an element in the hash table
   void Insert(K key, V value) {
-    double size = size_;
-    if (size / bucket_size_ > kLoadFactor) {
+    // Keep at least one of the buckets a key can be probed at empty. About one
+    // half of them is reachable for some of the prime numbers
+    while ((size_ + 1.0) / bucket_size_ > kLoadFactor) {
       ExtendBuckets();
     }
 
-- 
2.43.0


From 19720ffe749bb40dfcdc45a8dde948c3dc1fd2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 18/33] fix: destroy only constructed elements in Pool::Clear

After a Clear() the blocks beyond the current one hold no elements, but
they were destroyed again by the next Clear() or by the destructor.
---
 src/pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pool.h b/src/pool.h
index 7441fd8..cd00f05 100644
--- a/src/pool.h
+++ b/src/pool.h
@@ -75,7 +75,7 @@ class Pool {
     }
 
     if (!std::is_trivially_destructible<T>::value) {
-      for (int block_idx = 0; block_idx < blocks_.size() - 1; ++block_idx) {
+      for (int block_idx = 0; block_idx < current_block_; ++block_idx) {
         T *block = blocks_[block_idx];
         for (int idx = 0; idx < BLOCK_SIZE; ++idx) {
           if (freed.find(block + idx) == freed.end()) {
@@ -85,7 +85,7 @@ class Pool {
       }
 
       // The last block
-      T *last_block = blocks_.back();
+      T *last_block = blocks_[current_block_];
       for (int idx = 0; idx < current_pos_; ++idx) {
         if (freed.find(last_block + idx) == freed.end()) {
           last_block[idx].~T();
-- 
2.43.0


From dfa478e2f091a979d26d86edc0d8ee850d2171ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 19/33] fix: read lines longer than the read buffer as one line

ReadLine() returned a line of more than 4095 bytes in several pieces.
---
 src/util.cc | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index e95e834..6e25665 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -96,19 +96,26 @@ bool ReadableFile::ReadLine(std::string *line, Status *status) {
 
   // Readline
   std::array<char, 4096> chunk;
-  char *s = fgets(chunk.data(), chunk.size(), fd_);
-  if (s == NULL) {
-    if (feof(fd_)) {
-      // First time that reached EOF
-      return false;
-    } else {
-      *status = Status::IOError(filename_);
-      return false;
+  bool has_data = false;
+  line->clear();
+  while (line->empty() || line->back() != '\n') {
+    char *s = fgets(chunk.data(), chunk.size(), fd_);
+    if (s == NULL) {
+      if (!feof(fd_)) {
+        *status = Status::IOError(
+            util::Format("failed to read: {}", filename_));
+        return false;
+      }
+      break;
     }
+    has_data = true;
+    *line += s;
   }
 
+  // First time that reached EOF
+  if (!has_data) return false;
+
   // Trim the tailing '\r' or '\n'
-  *line = s;
   while (line->empty() == false &&
          (line->back() == '\r' || line->back() == '\n')) {
     line->pop_back();
-- 
2.43.0


From 3169da0d124c7387287fbb3a00b7c7df27649d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:17 +0000
Subject: [PATCH 20/33] fix: keep the old transcript when allocating the new
 one fails

The transcript was freed before its replacement was allocated, so a failing
allocation left a dangling pointer that destroying the utterance freed again.
---
 src/ce_stt.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 0d9e4ca..b2909b1 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -174,16 +174,18 @@ void StoreHypText(ce_utt_t *utt) {
       text += ' ';
     }
 
-    // Copy hyp to utt->hyp
+    // Copy hyp to utt->hyp. The old one is kept when the allocation fails
+    char *hyp_text = new char[text.size()];
     delete[] utt->hyp;
-    utt->hyp = new char[text.size()];
+    utt->hyp = hyp_text;
 
     // pasco_strlcpy will fill the last space as '\0' automatically
     pasco_strlcpy(utt->hyp, text.data(), text.size());
     utt->loglikelihood_per_frame = hyp.weight() / decoder->NumFramesDecoded();
   } else {
+    char *hyp_text = new char[1];
     delete[] utt->hyp;
-    utt->hyp = new char[1];
+    utt->hyp = hyp_text;
     *(utt->hyp) = '\0';
   }
 }
-- 
2.43.0


From 7da9cc3b6e91038ea5dc432cd08a273dd81010a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:50 +0000
Subject: [PATCH 21/33] fix: record a pool element as free before destructing
 it

When recording it failed (allocation failure while the free list grows) the
element was already destructed and Clear() destructed it a second time.
---
 src/pool.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pool.h b/src/pool.h
index cd00f05..eec084f 100644
--- a/src/pool.h
+++ b/src/pool.h
@@ -58,10 +58,12 @@ class Pool {
 
   // Allocate a class T with constructor parameter args 
   void Dealloc(T *pointer) {
+    // The element is destructed only after it has been recorded as free, since
+    // Clear() destructs every element not recorded
+    free_.push_back(pointer);
     if (!std::is_trivially_destructible<T>::value) {
       pointer->~T();
     }
-    free_.push_back(pointer);
   }
 
   // Clear all allocated class T
-- 
2.43.0


From 9adc296c9b98860c86cda46e8ddd291a73ec6fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:23 +0000
Subject: [PATCH 22/33] fix: release everything when an initialisation runs out
 of memory

ce_stt_init and ce_utt_init leaked the half-built recognizer or utterance when
an allocation failed in them.
---
 src/ce_stt.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index b2909b1..d2d109a 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -7,6 +7,7 @@
 #include <time.h>
 #include <string.h>
 #include <algorithm>
+#include <memory>
 #include <string>
 #include "am.h"
 #include "cmvn.h"
@@ -196,6 +197,11 @@ ce_stt_t *ce_stt_init(const char *config_file) {
   ce_stt_t *recognizer = new ce_stt_t;
   memset(recognizer, '\0', sizeof(ce_stt_t));
 
+  // Destroys the recognizer unless the initialization succeeded
+  std::unique_ptr<ce_stt_t, void (*)(ce_stt_t *)> guard(
+      recognizer,
+      ce_stt_destroy);
+
   Status status;
 
   Configuration conf;
@@ -222,12 +228,11 @@ ce_stt_t *ce_stt_init(const char *config_file) {
   // Initialize fbank feature extractor
   recognizer->fbank = new Fbank();
 
-  return recognizer;
+  return guard.release();
 
   if (false) {
 pasco_init_failed:
     pasco_strlcpy(error_message, status.what().c_str(), sizeof(error_message));
-    ce_stt_destroy(recognizer);
     return nullptr;
   }
 }
@@ -259,7 +264,14 @@ void ce_stt_destroy(ce_stt_t *recognizer) {
 
 ce_utt_t *ce_utt_init(ce_stt_t *recognizer, const ce_wave_format_t *format) {
   ce_utt_t *c_utt = new ce_utt_t;
+  c_utt->internal = nullptr;
+  c_utt->hyp = nullptr;
+
+  // Destroys the utterance unless the initialization succeeded
+  std::unique_ptr<ce_utt_t, void (*)(ce_utt_t *)> guard(c_utt, ce_utt_destroy);
+
   ce_utt_internal_t *utt = new ce_utt_internal_t;
+  c_utt->internal = utt;
 
   utt->decoder = std::unique_ptr<Decoder>(new Decoder(
       recognizer->fst,
@@ -271,19 +283,17 @@ ce_utt_t *ce_utt_init(ce_stt_t *recognizer, const ce_wave_format_t *format) {
   c_utt->hyp = new char[1];
   *(c_utt->hyp) = '\0';
   c_utt->loglikelihood_per_frame = 0.0f;
-  c_utt->internal = utt;
 
   // Set wave format in wave reader
   Status status = utt->wave_reader.SetFormat(*format);
   if (!status.ok()) {
     pasco_strlcpy(error_message, status.what().c_str(), sizeof(error_message));
-    ce_utt_destroy(c_utt);
     return nullptr;
   }
 
   utt->recognizer = recognizer;
 
-  return c_utt;
+  return guard.release();
 }
 
 void ce_utt_destroy(ce_utt_t *c_utt) {
-- 
2.43.0


From 0cd3f98acf1dc739f005f72c5a60e88a082dd72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:37 +0000
Subject: [PATCH 23/33] fix: release a pool block that cannot be recorded

Growing the list of blocks could fail after the block itself was allocated.
---
 src/pool.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pool.h b/src/pool.h
index eec084f..c0d65f3 100644
--- a/src/pool.h
+++ b/src/pool.h
@@ -17,6 +17,7 @@ template<typename T, int BLOCK_SIZE = 4096>
 class Pool {
  public:
   Pool() : current_block_(0), current_pos_(0) {
+    blocks_.reserve(1);
     T *block = reinterpret_cast<T *>(::operator new(sizeof(T) * BLOCK_SIZE));
     blocks_.push_back(block);
   }
@@ -38,6 +39,7 @@ class Pool {
       assert(current_pos_ <= BLOCK_SIZE);
       if (current_pos_ == BLOCK_SIZE) {
         if (current_block_ == blocks_.size() - 1) {
+          blocks_.reserve(blocks_.size() + 1);
           T *block = reinterpret_cast<T *>(
               ::operator new(sizeof(T) * BLOCK_SIZE));
           blocks_.push_back(block);
-- 
2.43.0


From fc01d0798a07f27b4fcbcc60ba388ef8a429d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:41 +0000
Subject: [PATCH 24/33] fix: release the graph when loading it runs out of
 memory

The buffer of a mapped file and a loaded FST implementation were leaked when
allocating the object that owns them failed.
---
 src/openfst/include/fst/const-fst.h | 10 ++++------
 src/openfst/lib/mapped-file.cc      | 11 ++++++-----
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/openfst/include/fst/const-fst.h b/src/openfst/include/fst/const-fst.h
index 09c81c7..a6ec6ec 100644
--- a/src/openfst/include/fst/const-fst.h
+++ b/src/openfst/include/fst/const-fst.h
@@ -268,17 +268,15 @@ class ConstFst : public ImplToExpandedFst<internal::ConstFstImpl<A, Unsigned>> {
   // Reads a ConstFst from an input stream, returning nullptr on error.
   static ConstFst<A, Unsigned> *Read(std::istream &strm,
                                      const FstReadOptions &opts) {
-    auto *impl = Impl::Read(strm, opts);
-    return impl ? new ConstFst<A, Unsigned>(std::shared_ptr<Impl>(impl))
-                : nullptr;
+    std::shared_ptr<Impl> impl(Impl::Read(strm, opts));
+    return impl ? new ConstFst<A, Unsigned>(impl) : nullptr;
   }
 
   // Read a ConstFst from a file; return nullptr on error; empty filename reads
   // from standard input.
   static ConstFst<A, Unsigned> *Read(const string &filename) {
-    auto *impl = ImplToExpandedFst<Impl>::Read(filename);
-    return impl ? new ConstFst<A, Unsigned>(std::shared_ptr<Impl>(impl))
-                : nullptr;
+    std::shared_ptr<Impl> impl(ImplToExpandedFst<Impl>::Read(filename));
+    return impl ? new ConstFst<A, Unsigned>(impl) : nullptr;
   }
 
   bool Write(std::ostream &strm, const FstWriteOptions &opts) const override {
diff --git a/src/openfst/lib/mapped-file.cc b/src/openfst/lib/mapped-file.cc
index 12232ac..7d93b60 100644
--- a/src/openfst/lib/mapped-file.cc
+++ b/src/openfst/lib/mapped-file.cc
@@ -105,15 +105,16 @@ MappedFile *MappedFile::Allocate(size_t size, int align) {
   MemoryRegion region;
   region.data = nullptr;
   region.offset = 0;
+  region.mmap = nullptr;
+  region.size = size;
+  std::unique_ptr<MappedFile> file(new MappedFile(region));
   if (size > 0) {
     char *buffer = static_cast<char *>(operator new(size + align));
     size_t address = reinterpret_cast<size_t>(buffer);
-    region.offset = kArchAlignment - (address % align);
-    region.data = buffer + region.offset;
+    file->region_.offset = kArchAlignment - (address % align);
+    file->region_.data = buffer + file->region_.offset;
   }
-  region.mmap = nullptr;
-  region.size = size;
-  return new MappedFile(region);
+  return file.release();
 }
 
 MappedFile *MappedFile::Borrow(void *data) {
-- 
2.43.0


From 087b934932a90b2a84e77cd627f02ae1c9c70c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 25/33] fix: fail when the transcripts could not be written

---
 src/main.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.cc b/src/main.cc
index aa8677d..02c2cc4 100644
--- a/src/main.cc
+++ b/src/main.cc
@@ -105,5 +105,11 @@ int main(int argc, char **argv) {
   }
 
   ce_stt_destroy(recognizer);
+
+  // The transcripts may not have been written, for example on a full disk
+  if (fflush(stdout) != 0 || ferror(stdout)) {
+    fprintf(stderr, "error: failed to write output\n");
+    return 1;
+  }
   return 0;
 }
-- 
2.43.0


From 40160ef97235e134c7ce4c6dd25b78b96221e9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 26/33] fix: convert_trans.py refuses a transition-id map that
 ends early

---
 tool/convert_trans.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tool/convert_trans.py b/tool/convert_trans.py
index 2a0af4d..d61c92d 100644
--- a/tool/convert_trans.py
+++ b/tool/convert_trans.py
@@ -18,6 +18,11 @@ num_pdfs = int(lines[0])
 num_transitions = int(lines[1])
 print('num_pdfs =', num_pdfs)
 
+# One line for each transition-id from 0 to num_transitions
+if len(lines) != num_transitions + 3:
+    print("{} lines expected, but {} found".format(num_transitions + 3, len(lines)))
+    sys.exit(1)
+
 map_list = [0 for i in range(num_transitions + 1)]
 for line in lines[2: ]:
     tid, pdf = line.split()
-- 
2.43.0


From 0d52d0076a9b14c2a778238deb6d90a66b0d4279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 27/33] fix: prune_lm.py accepts a language model that has
 unigrams only

---
 tool/prune_lm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tool/prune_lm.py b/tool/prune_lm.py
index f3541bf..beaac43 100644
--- a/tool/prune_lm.py
+++ b/tool/prune_lm.py
@@ -36,6 +36,9 @@ for line in sys.stdin:
         f = line.strip().split()
         if line.strip() == '':
             print(line.strip())
+        elif line.strip() == '\\end\\':
+            state = State.END
+            print(line.strip())
         elif line.strip()[0] == '\\':
             state = State.NGRAM
         elif len(f) in {2, 3}:
-- 
2.43.0


From 9ae47d0593a76509c1c33cde7f1bcaaf04036361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 28/33] fix: prune_lm.py reports a failed write of its last
 lines

---
 tool/prune_lm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tool/prune_lm.py b/tool/prune_lm.py
index beaac43..7bbb1f5 100644
--- a/tool/prune_lm.py
+++ b/tool/prune_lm.py
@@ -57,4 +57,7 @@ for line in sys.stdin:
 if state != State.END:
     raise Exception('unexpected end-of-file')
 
+# A failed write has to be seen here: it is not reported after this
+sys.stdout.flush()
+
 
-- 
2.43.0


From 2d19606a90f83120bcdcc0705ce0306bc3405abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 29/33] fix: Fst::Read accepts a graph without arcs

---
 src/fst.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fst.cc b/src/fst.cc
index d502486..9c94a6a 100644
--- a/src/fst.cc
+++ b/src/fst.cc
@@ -102,10 +102,12 @@ Status Fst::Read(util::ReadableFile *fd) {
       sizeof(state_idx_.front()) * state_idx_.size());
   if (!status.ok()) return status;
 
-  // Arcs
+  // Arcs (it is possible that there is no arc to read)
   arcs_.resize(arc_number);
-  status = fd->Read(arcs_.data(), sizeof(arcs_.front()) * arcs_.size());
-  if (!status.ok()) return status;
+  if (arc_number > 0) {
+    status = fd->Read(arcs_.data(), sizeof(arcs_.front()) * arcs_.size());
+    if (!status.ok()) return status;
+  }
 
   // Success
   return status;
-- 
2.43.0


From 2d4e579145fd0c2bd1704a32cc62756350bb409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:47 +0000
Subject: [PATCH 30/33] fix: Pool::Clear needs no memory, so an utterance can
 be destroyed while memory is short

---
 src/pool.h | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/pool.h b/src/pool.h
index c0d65f3..0ceec57 100644
--- a/src/pool.h
+++ b/src/pool.h
@@ -4,8 +4,9 @@
 #define POCKETKALDI_POOL_H_
 
 #include <stdio.h>
+#include <algorithm>
+#include <functional>
 #include <vector>
-#include <unordered_set>
 #include <memory>
 #include <type_traits>
 #include "util.h"
@@ -72,17 +73,15 @@ class Pool {
   void Clear() {
     // Call the dtor
 
-    // Element in free_ is already destructed
-    std::unordered_set<T *> freed;
-    for (T *elem : free_) {
-      freed.insert(elem);
-    }
-
     if (!std::is_trivially_destructible<T>::value) {
+      // Element in free_ is already destructed. It is searched in place: Clear()
+      // is called from the dtor and should not allocate memory
+      std::sort(free_.begin(), free_.end(), std::less<T *>());
+
       for (int block_idx = 0; block_idx < current_block_; ++block_idx) {
         T *block = blocks_[block_idx];
         for (int idx = 0; idx < BLOCK_SIZE; ++idx) {
-          if (freed.find(block + idx) == freed.end()) {
+          if (!is_free(block + idx)) {
             block[idx].~T();
           }
         }
@@ -91,7 +90,7 @@ class Pool {
       // The last block
       T *last_block = blocks_[current_block_];
       for (int idx = 0; idx < current_pos_; ++idx) {
-        if (freed.find(last_block + idx) == freed.end()) {
+        if (!is_free(last_block + idx)) {
           last_block[idx].~T();
         }
       }
@@ -117,6 +116,13 @@ class Pool {
   std::vector<T *> free_;
   int current_block_;
   int current_pos_;
+
+ private:
+  // Whether element is in free_, which has to be sorted
+  bool is_free(T *element) const {
+    return std::binary_search(
+        free_.begin(), free_.end(), element, std::less<T *>());
+  }
 };
 
 // Base class for any class T could be used in GCPool
-- 
2.43.0


From e7d46f102f8f4f30b45a7951d78764679e14ee09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:47 +0000
Subject: [PATCH 31/33] fix: SRFFT reports a failed allocation of its tables
 instead of writing to NULL

---
 src/srfft.cc | 26 +++++++++-----------------
 src/srfft.h  |  5 +++--
 2 files changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/srfft.cc b/src/srfft.cc
index 477315a..05e7747 100644
--- a/src/srfft.cc
+++ b/src/srfft.cc
@@ -79,7 +79,7 @@ void SRFFT::ComputeTable() {
 
   lg2 = logn_ >> 1;
   if (logn_ & 1) lg2++;
-  brseed_ = (int *)malloc(sizeof(int) * (1 << lg2));
+  brseed_.resize(1 << lg2);
   brseed_[0] = 0;
   brseed_[1] = 1;
   for (j = 2; j <= lg2; j++) {
@@ -90,10 +90,8 @@ void SRFFT::ComputeTable() {
     }
   }
 
-  if (logn_ < 4) {
-    tab_ = NULL;
-  } else {
-    tab_ = (float **)malloc(sizeof(float *) * logn_ - 3);
+  if (logn_ >= 4) {
+    tab_.resize(logn_ - 3);
     for (i = logn_; i >= 4 ;i--) {
       /* Compute a few constants */
       m = 1 << i; m2 = m / 2; m4 = m2 / 2; m8 = m4 /2;
@@ -101,10 +99,10 @@ void SRFFT::ComputeTable() {
       /* Allocate memory for tables */
       nel = m4 - 2;
 
-      tab_[i - 4] = (float *)malloc(sizeof(float) * (6 * nel));
+      tab_[i - 4].resize(6 * nel);
 
       /* Initialize pointers */
-      cn = tab_[i - 4]; spcn  = cn + nel;  smcn  = spcn + nel;
+      cn = tab_[i - 4].data(); spcn  = cn + nel;  smcn  = spcn + nel;
       c3n = smcn + nel;  spc3n = c3n + nel; smc3n = spc3n + nel;
 
       /* Compute tables */
@@ -127,7 +125,7 @@ void SRFFT::ComplexfftComputeRecursive(
     int logn) const {
   int m, m2, m4, m8, nel, n;
   float *xr1, *xr2, *xi1, *xi2;
-  float *cn, *spcn, *smcn, *c3n, *spc3n, *smc3n;
+  const float *cn, *spcn, *smcn, *c3n, *spc3n, *smc3n;
   float tmp1, tmp2;
   float sqhalf = M_SQRT1_2;
 
@@ -226,7 +224,7 @@ void SRFFT::ComplexfftComputeRecursive(
   xi1 = xi + m2; xi2 = xi1 + m4;
   if (logn >= 4) {
     nel = m4 - 2;
-    cn  = tab_[logn - 4]; spcn  = cn + nel;  smcn  = spcn + nel;
+    cn  = tab_[logn - 4].data(); spcn  = cn + nel;  smcn  = spcn + nel;
     c3n = smcn + nel;  spc3n = c3n + nel; smc3n = spc3n + nel;
   }
   xr1++; xr2++; xi1++; xi2++;
@@ -268,7 +266,8 @@ void SRFFT::BitReversePermute(
     float *x,
     int logn) const {
   int i, j, lg2, n;
-  int off, fj, gno, *brp;
+  int off, fj, gno;
+  const int *brp;
   float tmp, *xp, *xq;
 
   lg2 = logn >> 1;
@@ -355,13 +354,6 @@ SRFFT::SRFFT(int N) {
 }
 
 SRFFT::~SRFFT() {
-  free(brseed_);
-  if (tab_ != NULL) {
-    for (int i = 0; i < logn_ - 3; i++) {
-      free(tab_[i]);
-    }
-    free(tab_);
-  }
 }
 
 
diff --git a/src/srfft.h b/src/srfft.h
index 4d5e188..df3c5a0 100644
--- a/src/srfft.h
+++ b/src/srfft.h
@@ -4,6 +4,7 @@
 #define POCKETKALDI_SRFFT_H_
 
 #include <stdbool.h>
+#include <vector>
 #include "ce_stt.h"
 
 namespace pocketkaldi {
@@ -36,10 +37,10 @@ class SRFFT {
   // brseed is Evans' seed table, ref:  (Ref: D. M. W.
   // Evans, "An improved digit-reversal permutation algorithm ...",
   // IEEE Trans. ASSP, Aug. 1987, pp. 1120-1125).
-  int *brseed_;
+  std::vector<int> brseed_;
 
   // Tables of butterfly coefficients.
-  float **tab_;
+  std::vector<std::vector<float>> tab_;
 
   void BitReversePermute(float *x, int logn) const;
   void ComplexFFTCompute2(float *xr, float *xi, bool forward) const;
-- 
2.43.0


From b91c7c6d0e70e9cfc20a16ae9f4a77d57de6ed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:47 +0000
Subject: [PATCH 32/33] fix: the 8-bit product returns when a worker thread
 cannot be created

---
 src/gemmlowp/internal/multi_thread_gemm.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/gemmlowp/internal/multi_thread_gemm.h b/src/gemmlowp/internal/multi_thread_gemm.h
index b8485b5..e1041aa 100644
--- a/src/gemmlowp/internal/multi_thread_gemm.h
+++ b/src/gemmlowp/internal/multi_thread_gemm.h
@@ -233,12 +233,14 @@ class Worker {
         counter_to_decrement_when_ready_(counter_to_decrement_when_ready) {
     pthread_cond_init(&state_cond_, nullptr);
     pthread_mutex_init(&state_mutex_, nullptr);
-    pthread_create(&thread_, nullptr, ThreadFunc, this);
+    has_thread_ = pthread_create(&thread_, nullptr, ThreadFunc, this) == 0;
+    // Without a thread the work is done by the caller of StartWork().
+    if (!has_thread_) ChangeState(State::Ready);
   }
 
   ~Worker() {
     ChangeState(State::ExitAsSoonAsPossible);
-    pthread_join(thread_, nullptr);
+    if (has_thread_) pthread_join(thread_, nullptr);
     pthread_cond_destroy(&state_cond_);
     pthread_mutex_destroy(&state_mutex_);
   }
@@ -327,11 +329,15 @@ class Worker {
   }
 
   // Called by the master thead to give this worker work to do.
-  void StartWork(Task* task) { ChangeState(State::HasWork, task); }
+  void StartWork(Task* task) {
+    ChangeState(State::HasWork, task);
+    if (!has_thread_) ChangeState(State::Ready);
+  }
 
  private:
-  // The underlying thread.
+  // The underlying thread, and whether it could be created.
   pthread_t thread_;
+  bool has_thread_;
 
   // The task to be worked on.
   Task* task_;
-- 
2.43.0


From 5988cf48f770788d3192fe3d04956e30a1b0feaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:47 +0000
Subject: [PATCH 33/33] fix: ReadLine refuses a text file with zero bytes
 instead of losing lines

---
 src/util.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/util.cc b/src/util.cc
index 6e25665..c5177b0 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -99,6 +99,9 @@ bool ReadableFile::ReadLine(std::string *line, Status *status) {
   bool has_data = false;
   line->clear();
   while (line->empty() || line->back() != '\n') {
+    // The data read by fgets ends at the last '\0', since it doesn't touch the
+    // chunk behind it
+    chunk.fill('\n');
     char *s = fgets(chunk.data(), chunk.size(), fd_);
     if (s == NULL) {
       if (!feof(fd_)) {
@@ -108,6 +111,12 @@ bool ReadableFile::ReadLine(std::string *line, Status *status) {
       }
       break;
     }
+    if (std::find(chunk.rbegin(), chunk.rend(), '\0').base() - 1 !=
+        chunk.begin() + strlen(s)) {
+      *status = Status::Corruption(
+          util::Format("'\\0' found in text file: {}", filename_));
+      return false;
+    }
     has_data = true;
     *line += s;
   }
-- 
2.43.0

