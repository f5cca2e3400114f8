From 2028a1f7e3832a3950d1c8ade3271babccf91abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 01/32] fix: top nodes are identified by both of their
 parameters

Two top nodes with equal true parameters but different false parameters were
treated as the same node, so asking for the second returned the first.
---
 src/psdd_node.cpp         | 3 ++-
 src/psdd_unique_table.cpp | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 612736e..7c597e8 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -983,7 +983,8 @@ PsddTopNode::PsddTopNode(uintmax_t *node_index, Vtree *vtree_node,
 bool PsddTopNode::operator==(const PsddTopNode &other) const {
   return variable_index_ == other.variable_index_ &&
          flag_index() == other.flag_index() &&
-         true_parameter_ == other.true_parameter_;
+         true_parameter_ == other.true_parameter_ &&
+         false_parameter_ == other.false_parameter_;
 }
 
 int PsddTopNode::node_type() const { return 3; }
diff --git a/src/psdd_unique_table.cpp b/src/psdd_unique_table.cpp
index 9a19e80..95c25b0 100644
--- a/src/psdd_unique_table.cpp
+++ b/src/psdd_unique_table.cpp
@@ -31,9 +31,13 @@ struct PsddUniqueTableSetFunctional {
           node_b->psdd_top_node()->variable_index()) {
         return node_a->psdd_top_node()->variable_index() <
                node_b->psdd_top_node()->variable_index();
-      } else {
+      } else if (node_a->psdd_top_node()->true_parameter() !=
+                 node_b->psdd_top_node()->true_parameter()) {
         return node_a->psdd_top_node()->true_parameter() <
                node_b->psdd_top_node()->true_parameter();
+      } else {
+        return node_a->psdd_top_node()->false_parameter() <
+               node_b->psdd_top_node()->false_parameter();
       }
     } else {
       if (node_b->node_type() != DECISION_NODE_TYPE) {
-- 
2.43.0


From 00eb888552f128431de075224c3253f5a15124a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 02/32] fix: direct sampling handles draws close to 1

A draw that is not below the rounded sum of the parameters aborted at a
decision node, and made a top node that is certainly true come out false.
---
 src/psdd_node.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 7c597e8..c9fa549 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -952,6 +952,15 @@ void PsddDecisionNode::DirectSample(
       return;
     }
   }
+  // The parameters may sum to slightly less than 1 because of rounding, so a
+  // draw close to 1 may exceed the sum. It belongs to the last possible element.
+  for (size_t i = element_size; i-- > 0;) {
+    if (parameters_[i] != PsddParameter::CreateFromDecimal(0)) {
+      primes_[i]->DirectSample(instantiation, generator);
+      subs_[i]->DirectSample(instantiation, generator);
+      return;
+    }
+  }
   assert(false);
 }
 const std::vector<uintmax_t> &PsddDecisionNode::data_counts() const {
@@ -1023,7 +1032,8 @@ void PsddTopNode::DirectSample(std::bitset<MAX_VAR> *instantiation,
   PsddParameter uniform_rand = PsddParameter::CreateFromDecimal(
       (generator->generate() - generator->min()) /
       (generator->max() - generator->min()));
-  if (uniform_rand < true_parameter_) {
+  if (uniform_rand < true_parameter_ ||
+      false_parameter_ == PsddParameter::CreateFromDecimal(0)) {
     instantiation->set(variable_index_);
   }
 }
-- 
2.43.0


From 04df6f569221b8296822832eef0dd44774078f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 03/32] fix: unused nodes are deleted, not only forgotten

DeleteUnusedPsddNodes removed nodes from the unique table without deleting
them, so garbage collection and destroying a manager leaked every node.
---
 src/psdd_unique_table.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psdd_unique_table.cpp b/src/psdd_unique_table.cpp
index 95c25b0..859dbac 100644
--- a/src/psdd_unique_table.cpp
+++ b/src/psdd_unique_table.cpp
@@ -271,7 +271,9 @@ class PsddUniqueTableImp : public PsddUniqueTable {
       while (node_it != decision_table_it->second.end()) {
         if (covered_nodes.find((*node_it)->node_index()) ==
             covered_nodes.end()) {
+          PsddNode *unused_node = *node_it;
           node_it = decision_table_it->second.erase(node_it);
+          delete (unused_node);
         } else {
           ++node_it;
         }
@@ -289,7 +291,9 @@ class PsddUniqueTableImp : public PsddUniqueTable {
       while (node_it != literal_table_it->second.end()) {
         if (covered_nodes.find((*node_it)->node_index()) ==
             covered_nodes.end()) {
+          PsddNode *unused_node = *node_it;
           node_it = literal_table_it->second.erase(node_it);
+          delete (unused_node);
         } else {
           ++node_it;
         }
@@ -307,7 +311,9 @@ class PsddUniqueTableImp : public PsddUniqueTable {
       while (node_it != top_table_it->second.end()) {
         if (covered_nodes.find((*node_it)->node_index()) ==
             covered_nodes.end()) {
+          PsddNode *unused_node = *node_it;
           node_it = top_table_it->second.erase(node_it);
+          delete (unused_node);
         } else {
           ++node_it;
         }
-- 
2.43.0


From 3c02fd9798579c7cf1e68b69f253ba7e95771144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 04/32] fix: serialising several PSDDs keeps parents before
 children

When one root is a part of another, the part was placed before its parents, so
SampleParametersForMultiplePsdds read nodes it had not visited yet.
---
 src/psdd_node.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index c9fa549..78eaa34 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -288,6 +288,25 @@ SerializePsddNodes(const std::vector<PsddNode *> &root_nodes) {
     }
     ++explore_index;
   }
+  if (root_nodes.size() > 1) {
+    // One root may be a descendant of another, order the nodes by the depth of
+    // their vtree nodes so that parents always appear before their children.
+    std::unordered_map<Vtree *, size_t> depths;
+    for (PsddNode *cur_node : result) {
+      Vtree *vtree_node = cur_node->vtree_node();
+      size_t depth = 0;
+      for (Vtree *v = sdd_vtree_parent(vtree_node); v != nullptr;
+           v = sdd_vtree_parent(v)) {
+        depth += 1;
+      }
+      depths[vtree_node] = depth;
+    }
+    std::stable_sort(result.begin(), result.end(),
+                     [&depths](PsddNode *lhs, PsddNode *rhs) {
+                       return depths[lhs->vtree_node()] <
+                              depths[rhs->vtree_node()];
+                     });
+  }
   return result;
 }
 
-- 
2.43.0


From e4a6f1f2c77962ff7a7682d7ea318bb08ea39863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 05/32] fix: learning starts from fresh data counts

Counts left behind by a learning call that ended with an exception were added
to those of the next call.
---
 src/psdd_manager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psdd_manager.cpp b/src/psdd_manager.cpp
index 26e4627..74a95df 100644
--- a/src/psdd_manager.cpp
+++ b/src/psdd_manager.cpp
@@ -841,6 +841,10 @@ PsddNode *PsddManager::LearnPsddParameters(
   std::vector<PsddNode *> serialized_psdd_nodes =
       psdd_node_util::SerializePsddNodes(target_structure);
   assert(serialized_psdd_nodes[0] == target_structure);
+  // Counts may be left over from a learning call that did not finish.
+  for (PsddNode *cur_node : serialized_psdd_nodes) {
+    cur_node->ResetDataCount();
+  }
   if (data_size != 0) {
     for (auto node_it = serialized_psdd_nodes.rbegin();
          node_it != serialized_psdd_nodes.rend(); ++node_it) {
-- 
2.43.0


From 81cb46fb3e1e60b027401cda739906f52283a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:15 +0000
Subject: [PATCH 06/32] fix: reading a damaged PSDD file ends with an error

A file that was cut short, or could not be read to its end, silently produced
the PSDD of the last node it still contained, and parameters of zero, written
as -inf, were not parsed at all. Every line is now checked, the last line must
be complete and the number of nodes must be the one announced in the header.
---
 src/psdd_manager.cpp | 71 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 60 insertions(+), 11 deletions(-)

diff --git a/src/psdd_manager.cpp b/src/psdd_manager.cpp
index 74a95df..a94489b 100644
--- a/src/psdd_manager.cpp
+++ b/src/psdd_manager.cpp
@@ -5,13 +5,16 @@
 #include <psdd/psdd_manager.h>
 #include <psdd/psdd_unique_table.h>
 
+#include <algorithm>
 #include <cassert>
+#include <cstdlib>
 #include <fstream>
 #include <functional>
 #include <iostream>
 #include <queue>
 #include <sstream>
 #include <stack>
+#include <string>
 #include <unordered_set>
 namespace {
 using std::unordered_set;
@@ -576,6 +579,25 @@ std::pair<PsddNode *, PsddParameter> PsddManager::Multiply(
   return MultiplyWithCache(arg1, arg2, this, flag_index, &cache);
 }
 
+namespace {
+[[noreturn]] void FailReadingPsddFile(const char *psdd_filename,
+                                      const std::string &reason) {
+  std::cerr << "File " << psdd_filename << " cannot be read: " << reason
+            << std::endl;
+  exit(1);  // terminate with error
+}
+// Reads a log value, which may be -inf. (operator>> does not parse that)
+bool ReadLogValue(std::istringstream *input, double *value) {
+  std::string token;
+  if (!(*input >> token)) {
+    return false;
+  }
+  char *end = nullptr;
+  *value = std::strtod(token.c_str(), &end);
+  return *end == '\0';
+}
+}  // namespace
+
 PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
                                     uintmax_t flag_index) {
   std::ifstream psdd_file;
@@ -587,15 +609,22 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
   }
   std::string line;
   PsddNode *root_node = nullptr;
-  uint32_t psdd_size;
+  uint32_t psdd_size = 0;
+  bool has_psdd_size = false;
   uint32_t num_constructed = 0;
   while (std::getline(psdd_file, line)) {
+    if (psdd_file.eof()) {
+      FailReadingPsddFile(psdd_filename, "the last line is incomplete");
+    }
     if (line[0] == 'c') {
       continue;
     }
     if (line[0] == 'p') {
-      std::istringstream iss(line.substr(5, std::string::npos));
-      iss >> psdd_size;
+      std::istringstream iss(line.substr(std::min<size_t>(5, line.size())));
+      if (!(iss >> psdd_size)) {
+        FailReadingPsddFile(psdd_filename, "malformed line: " + line);
+      }
+      has_psdd_size = true;
       continue;
     }
     if (line[0] == 'L') {
@@ -603,7 +632,9 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
       uintmax_t node_index;
       uint32_t vtree_index;
       int32_t literal;
-      iss >> node_index >> vtree_index >> literal;
+      if (!(iss >> node_index >> vtree_index >> literal)) {
+        FailReadingPsddFile(psdd_filename, "malformed line: " + line);
+      }
       PsddNode *cur_node = GetPsddLiteralNode(literal, flag_index);
       construct_cache[node_index] = cur_node;
       root_node = cur_node;
@@ -614,20 +645,28 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
       uint32_t variable_index;
       double neg_log_pr;
       double pos_log_pr;
-      iss >> node_index >> vtree_index >> variable_index >> neg_log_pr >>
-          pos_log_pr;
+      if (!(iss >> node_index >> vtree_index >> variable_index) ||
+          !ReadLogValue(&iss, &neg_log_pr) ||
+          !ReadLogValue(&iss, &pos_log_pr)) {
+        FailReadingPsddFile(psdd_filename, "malformed line: " + line);
+      }
       PsddNode *cur_node = GetPsddTopNode(
           variable_index, flag_index, PsddParameter::CreateFromLog(pos_log_pr),
           PsddParameter::CreateFromLog(neg_log_pr));
       construct_cache[node_index] = cur_node;
       root_node = cur_node;
     } else {
-      assert(line[0] == 'D');
+      if (line[0] != 'D') {
+        FailReadingPsddFile(psdd_filename, "malformed line: " + line);
+      }
       std::istringstream iss(line.substr(1, std::string::npos));
       uintmax_t node_index;
       int vtree_index;
       uintmax_t element_size;
-      iss >> node_index >> vtree_index >> element_size;
+      if (!(iss >> node_index >> vtree_index >> element_size) ||
+          element_size == 0) {
+        FailReadingPsddFile(psdd_filename, "malformed line: " + line);
+      }
       std::vector<PsddNode *> primes;
       std::vector<PsddNode *> subs;
       std::vector<PsddParameter> params;
@@ -635,9 +674,12 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
         uintmax_t prime_index;
         uintmax_t sub_index;
         double weight_in_log;
-        iss >> prime_index >> sub_index >> weight_in_log;
-        assert(construct_cache.find(prime_index) != construct_cache.end());
-        assert(construct_cache.find(sub_index) != construct_cache.end());
+        if (!(iss >> prime_index >> sub_index) ||
+            !ReadLogValue(&iss, &weight_in_log) ||
+            construct_cache.find(prime_index) == construct_cache.end() ||
+            construct_cache.find(sub_index) == construct_cache.end()) {
+          FailReadingPsddFile(psdd_filename, "malformed line: " + line);
+        }
         PsddNode *prime_node = construct_cache[prime_index];
         PsddNode *sub_node = construct_cache[sub_index];
         primes.push_back(prime_node);
@@ -657,6 +699,13 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
     num_constructed ++;
     std::cout << "\rConstructed " << num_constructed << "Remaining " << psdd_size - num_constructed; 
   }
+  if (psdd_file.bad()) {
+    FailReadingPsddFile(psdd_filename, "read error");
+  }
+  if (root_node == nullptr ||
+      (has_psdd_size && num_constructed != psdd_size)) {
+    FailReadingPsddFile(psdd_filename, "psdd nodes are missing");
+  }
   psdd_file.close();
   std::cout << std::endl;
   return root_node;
-- 
2.43.0


From 89c8104d545e28076da66f156a95ba67976c793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:46 +0000
Subject: [PATCH 07/32] fix: failed writes of PSDD and data files end with an
 error

When the disk was full, or writing failed otherwise, WritePsddToFile and
BinaryData::WriteFile returned as if the file had been written.
---
 src/binary_data.cpp | 4 ++++
 src/psdd_node.cpp   | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 3342a4a..7496068 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -60,6 +60,10 @@ void BinaryData::WriteFile(const char *data_file) {
     }
   }
   data_fd.close();
+  if (!data_fd) {
+    std::cerr << "Failed to write " << data_file << std::endl;
+    exit(1);
+  }
 }
 
 uintmax_t BinaryData::data_size() const { return data_size_; }
diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 78eaa34..6a82e71 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -5,6 +5,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cmath>
+#include <cstdlib>
 #include <fstream>
 #include <functional>
 #include <gmp.h>
@@ -653,6 +654,11 @@ void WritePsddToFile(PsddNode *root_node, const char *output_filename) {
   for (PsddNode *cur_node : serialized_psdds) {
     cur_node->SetUserData(0);
   }
+  if (!output_file) {
+    std::cerr << "File " << output_filename << " cannot be written."
+              << std::endl;
+    exit(1);  // terminate with error
+  }
 }
 std::unordered_map<uint32_t, std::pair<Probability, Probability>>
 GetMarginals(const std::vector<PsddNode *> &serialized_nodes) {
-- 
2.43.0


From d5c01dd48e7946db5a63437ee68a5fb22888adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:46 +0000
Subject: [PATCH 08/32] fix: CNF files that cannot be read, and blank lines in
 them

A CNF file that could not be opened or read was a CNF without constraints, and
a blank line was an empty clause, which made the CNF unsatisfiable.
---
 src/cnf.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/cnf.cpp b/src/cnf.cpp
index 349bfb1..5bf81f6 100644
--- a/src/cnf.cpp
+++ b/src/cnf.cpp
@@ -4,7 +4,9 @@
 
 #include <cassert>
 #include <cmath>
+#include <cstdlib>
 #include <fstream>
+#include <iostream>
 #include <psdd/cnf.h>
 #include <psdd/psdd_unique_table.h>
 #include <queue>
@@ -42,6 +44,10 @@ SddNode *ConstructSddFromCnf(
 } // namespace
 CNF::CNF(const char *filename) {
   std::ifstream cnf_file(filename);
+  if (!cnf_file) {
+    std::cerr << "File " << filename << " cannot be open." << std::endl;
+    exit(1);  // terminate with error
+  }
   std::string line;
   while (getline(cnf_file, line)) {
     if (line[0] == 'p') {
@@ -50,6 +56,9 @@ CNF::CNF(const char *filename) {
     if (line[0] == 'c'){
       continue;
     }
+    if (line.find_first_not_of(" \t\r") == std::string::npos) {
+      continue;  // a blank line is not an empty clause
+    }
     std::vector<SddLiteral> clause;
     std::stringstream ss(line);
     SddLiteral token;
@@ -61,6 +70,10 @@ CNF::CNF(const char *filename) {
     }
     clauses_.push_back(clause);
   }
+  if (cnf_file.bad()) {
+    std::cerr << "File " << filename << " cannot be read." << std::endl;
+    exit(1);  // terminate with error
+  }
   cnf_file.close();
 }
 const std::vector<std::vector<SddLiteral>> &CNF::clauses() const {
-- 
2.43.0


From c6f297001b2e6775c47fdb62401f3e18c96f11fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:17 +0000
Subject: [PATCH 09/32] fix: incomplete UAI files end with an error

Reading a file that was cut short, or could not be read to its end, did not
terminate, and a missing file was only reported and then parsed all the same.
---
 src/uai_network.cpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/uai_network.cpp b/src/uai_network.cpp
index a7b7dd1..d7ff14b 100644
--- a/src/uai_network.cpp
+++ b/src/uai_network.cpp
@@ -5,11 +5,23 @@
 #include "psdd/uai_network.h"
 
 #include <cassert>
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <sstream>
 #include <string>
 
+namespace {
+// Reads the next line, terminates with an error when there is none.
+void ReadLine(std::ifstream* uaifs, const char* uai_file,
+              std::string* string_buf) {
+  if (!getline(*uaifs, *string_buf)) {
+    std::cerr << "factor file " << uai_file << " is incomplete." << std::endl;
+    exit(1);
+  }
+}
+}  // namespace
+
 UaiNetwork::UaiNetwork() {}
 
 UaiNetwork::UaiNetwork(size_t var_size, size_t factor_size, int network_type,
@@ -25,25 +37,26 @@ void UaiNetwork::read_file(const char* uai_file) {
   std::ifstream uaifs(uai_file, std::ifstream::in);
   if (!uaifs) {
     std::cerr << "factor file " << uai_file << " cannot be open." << std::endl;
+    exit(1);
   }
   std::string string_buf = "";
-  getline(uaifs, string_buf);
+  ReadLine(&uaifs, uai_file, &string_buf);
   std::string network_type = "";
   if (string_buf.find("BAYES") != std::string::npos) {
     m_network_type = BAYESIAN_NETWORK_TYPE;
   } else {
     m_network_type = MARKOV_NETWORK_TYPE;
   }
-  getline(uaifs, string_buf);
+  ReadLine(&uaifs, uai_file, &string_buf);
   size_t var_num = (size_t)stoi(string_buf);
   m_var_size = var_num;
-  getline(uaifs, string_buf);
-  getline(uaifs, string_buf);
+  ReadLine(&uaifs, uai_file, &string_buf);
+  ReadLine(&uaifs, uai_file, &string_buf);
   int factor_num = stoi(string_buf);
   m_factor_size = (size_t)factor_num;
   for (int i = 0; i < m_factor_size; i++) {
     std::vector<size_t> order_list;
-    getline(uaifs, string_buf);
+    ReadLine(&uaifs, uai_file, &string_buf);
     std::istringstream iss(string_buf);
     int var_index = 0;
     int size;
@@ -54,9 +67,9 @@ void UaiNetwork::read_file(const char* uai_file) {
     m_clusters.push_back(order_list);
   }
   for (int i = 0; i < m_factor_size; i++) {
-    getline(uaifs, string_buf);
+    ReadLine(&uaifs, uai_file, &string_buf);
     while (string_buf == "") {
-      getline(uaifs, string_buf);
+      ReadLine(&uaifs, uai_file, &string_buf);
     }
     size_t entry_cnt;
     std::istringstream iss(string_buf);
@@ -68,7 +81,7 @@ void UaiNetwork::read_file(const char* uai_file) {
       param_list.push_back(PsddParameter::CreateFromDecimal(cur_entry));
     }
     while (param_list.size() < entry_cnt) {
-      getline(uaifs, string_buf);
+      ReadLine(&uaifs, uai_file, &string_buf);
       iss.str(string_buf);
       iss.clear();
       while (iss >> cur_entry) {
-- 
2.43.0


From 8bdf385a4c042927ec28de53af84e9c0991dbcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:17 +0000
Subject: [PATCH 10/32] fix: reading a file replaces what the object held
 before

Reading a second file into a BinaryData or UaiNetwork mixed both contents, and
a new BinaryData started with indeterminate sizes.
---
 include/psdd/binary_data.h | 4 ++--
 src/binary_data.cpp        | 1 +
 src/uai_network.cpp        | 2 ++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/psdd/binary_data.h b/include/psdd/binary_data.h
index d4822fd..82b6ff8 100644
--- a/include/psdd/binary_data.h
+++ b/include/psdd/binary_data.h
@@ -27,8 +27,8 @@ class BinaryData {
   double CalculateEntropy() const;
  private:
   std::unordered_map<std::bitset<MAX_VAR>, uintmax_t> data_;
-  uint32_t variable_size_;
-  uintmax_t data_size_;
+  uint32_t variable_size_ = 0;
+  uintmax_t data_size_ = 0;
 };
 
 #endif //STRUCTURED_BAYESIAN_NETWORK_BINARY_DATA_H
diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 7496068..ec7bb1f 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -18,6 +18,7 @@ void BinaryData::ReadFile(const char *data_file) {
     exit(1);
   }
   CsvRow *row;
+  data_.clear();
   data_size_ = 0;
   variable_size_ = 0;
   while ((row = CsvParser_getRow(csvparser))) {
diff --git a/src/uai_network.cpp b/src/uai_network.cpp
index d7ff14b..48e97cc 100644
--- a/src/uai_network.cpp
+++ b/src/uai_network.cpp
@@ -39,6 +39,8 @@ void UaiNetwork::read_file(const char* uai_file) {
     std::cerr << "factor file " << uai_file << " cannot be open." << std::endl;
     exit(1);
   }
+  m_clusters.clear();
+  m_params.clear();
   std::string string_buf = "";
   ReadLine(&uaifs, uai_file, &string_buf);
   std::string network_type = "";
-- 
2.43.0


From 5d9d8d54c3c7d7ad582a0cb8d4303779db6ecf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:43 +0000
Subject: [PATCH 11/32] fix: data files that cannot be read end with an error

A read error made the CSV parser run forever, and a data file that could not be
opened was an empty data set.
---
 src/binary_data.cpp | 10 ++++++++++
 src/csvparser.c     |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index ec7bb1f..3ba2574 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -3,6 +3,7 @@
 //
 #include <assert.h>
 #include <cmath>
+#include <cstring>
 #include <fstream>
 #include <iostream>
 #include <nlohmann/json.hpp>
@@ -44,6 +45,11 @@ void BinaryData::ReadFile(const char *data_file) {
     }
     CsvParser_destroy_row(row);
   }
+  if (std::strcmp(CsvParser_getErrorMessage(csvparser), "Reached EOF") != 0) {
+    std::cerr << "Failed to load " << data_file << ": "
+              << CsvParser_getErrorMessage(csvparser) << std::endl;
+    exit(1);
+  }
   CsvParser_destroy(csvparser);
 }
 void BinaryData::WriteFile(const char *data_file) {
@@ -100,6 +106,10 @@ double BinaryData::CalculateEntropy() const {
 
 BinaryData *BinaryData::ReadSparseDataJsonFile(const char *data_file) {
   std::ifstream data_input_stream(data_file);
+  if (!data_input_stream) {
+    std::cerr << "Failed to load " << data_file << std::endl;
+    return nullptr;
+  }
   json data_input_json;
   data_input_stream >> data_input_json;
   if (data_input_json.find("variable_size") == data_input_json.end()) {
diff --git a/src/csvparser.c b/src/csvparser.c
index 7e62b4a..3c3a31a 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -154,6 +154,12 @@ CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
       endOfFileIndicator = (currChar == '\0');
     } else {
       endOfFileIndicator = feof(csvParser->fileHandler_);
+      if (ferror(csvParser->fileHandler_)) {
+        _CsvParser_setErrorMessage(csvParser, "Error reading CSV file");
+        free(currField);
+        CsvParser_destroy_row(csvRow);
+        return NULL;
+      }
     }
     if (endOfFileIndicator) {
       if (currFieldCharIter == 0 && fieldIter == 0) {
-- 
2.43.0


From fb4aa248f0c5495e3a9cf6e188497274b3920c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:14 +0000
Subject: [PATCH 12/32] fix: unsatisfiable evidence is answered with
 UNSATISFIED

---
 psdd_inference_main.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/psdd_inference_main.cpp b/psdd_inference_main.cpp
index cb6ccac..72a9c18 100644
--- a/psdd_inference_main.cpp
+++ b/psdd_inference_main.cpp
@@ -75,8 +75,13 @@ int main(int argc, const char *argv[]) {
   PsddNode *result_node = psdd_manager->ReadPsddFile(psdd_filename, 0);
   if (cnf != nullptr) {
     PsddNode *evid = cnf->Compile(psdd_manager, 0);
-    auto new_node_result = psdd_manager->Multiply(evid, result_node, 0);
-    result_node = new_node_result.first;
+    if (evid == nullptr) {
+      // the evidence itself is unsatisfiable
+      result_node = nullptr;
+    } else {
+      auto new_node_result = psdd_manager->Multiply(evid, result_node, 0);
+      result_node = new_node_result.first;
+    }
   }
   if (result_node == nullptr) {
     std::cout << "UNSATISFIED" << std::endl;
-- 
2.43.0


From 7929e73f47b0a4f8c924beed872ce62d471ee1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:22 +0000
Subject: [PATCH 13/32] fix: keep the comparison value of a parameter current
 in compound assignments

---
 src/psdd_parameter.cpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/psdd_parameter.cpp b/src/psdd_parameter.cpp
index 20c3cd9..260c7b8 100644
--- a/src/psdd_parameter.cpp
+++ b/src/psdd_parameter.cpp
@@ -76,28 +76,16 @@ bool PsddParameter::operator>(const PsddParameter &other) const {
 }
 
 PsddParameter &PsddParameter::operator+=(const PsddParameter &other) {
-  if (parameter_ == -std::numeric_limits<double>::infinity()) {
-    // if this is zero
-    parameter_ = other.parameter_;
-  } else if (other.parameter_ == -std::numeric_limits<double>::infinity()) {
-    // No change on the paramter_
-  } else {
-    if (parameter_ > other.parameter_) {
-      parameter_ += std::log1p(std::exp(other.parameter_ - parameter_));
-    } else {
-      parameter_ = other.parameter_ +
-                   std::log1p(std::exp(parameter_ - other.parameter_));
-    }
-  }
+  *this = *this + other;
   return *this;
 }
 
 PsddParameter &PsddParameter::operator/=(const PsddParameter &other) {
-  parameter_ -= other.parameter_;
+  *this = *this / other;
   return *this;
 }
 
 PsddParameter &PsddParameter::operator*=(const PsddParameter &other) {
-  parameter_ += other.parameter_;
+  *this = *this * other;
   return *this;
 }
-- 
2.43.0


From 2d6429850399b63540acf175efb54dcf64718a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:22 +0000
Subject: [PATCH 14/32] fix: learning without smoothing gives parameters to
 nodes no example reaches

---
 src/psdd_manager.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/psdd_manager.cpp b/src/psdd_manager.cpp
index a94489b..6c0c49a 100644
--- a/src/psdd_manager.cpp
+++ b/src/psdd_manager.cpp
@@ -1006,10 +1006,16 @@ PsddNode *PsddManager::LearnPsddParameters(
               static_cast<double>(cur_top_node->false_data_count())) +
           alpha;
       const auto total_data_count = true_data_count + false_data_count;
-      PsddTopNode *new_top_node =
-          GetPsddTopNode(cur_top_node->variable_index(), flag_index,
-                         true_data_count / total_data_count,
-                         false_data_count / total_data_count);
+      // Without smoothing, there is nothing to estimate from if no example
+      // reaches the node.
+      const bool no_data =
+          total_data_count == PsddParameter::CreateFromDecimal(0);
+      PsddTopNode *new_top_node = GetPsddTopNode(
+          cur_top_node->variable_index(), flag_index,
+          no_data ? PsddParameter::CreateFromDecimal(0.5)
+                  : true_data_count / total_data_count,
+          no_data ? PsddParameter::CreateFromDecimal(0.5)
+                  : false_data_count / total_data_count);
       cur_top_node->SetUserData((uintmax_t)new_top_node);
     } else {
       assert(cur_node->node_type() == DECISION_NODE_TYPE);
@@ -1030,8 +1036,12 @@ PsddNode *PsddManager::LearnPsddParameters(
         new_primes.push_back((PsddNode *)primes[i]->user_data());
         new_subs.push_back((PsddNode *)subs[i]->user_data());
       }
+      const bool no_data =
+          total_data_counts == PsddParameter::CreateFromDecimal(0);
       for (size_t i = 0; i < element_size; ++i) {
-        parameters[i] = parameters[i] / total_data_counts;
+        parameters[i] = no_data ? PsddParameter::CreateFromDecimal(
+                                      1.0 / static_cast<double>(element_size))
+                                : parameters[i] / total_data_counts;
       }
       PsddNode *new_decn_node = GetConformedPsddDecisionNode(
           new_primes, new_subs, parameters, flag_index);
-- 
2.43.0


From 1c178decb6163d4157d31bcbb03ebfd664be0406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:46 +0000
Subject: [PATCH 15/32] fix: file names of the compiler tool and of the
 hypergraph configuration may have any length

---
 src/hypergraph_decomposition_vtree.cpp |  8 +++-----
 uai_compiler.cpp                       | 11 +++++------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/hypergraph_decomposition_vtree.cpp b/src/hypergraph_decomposition_vtree.cpp
index 648b254..af79254 100644
--- a/src/hypergraph_decomposition_vtree.cpp
+++ b/src/hypergraph_decomposition_vtree.cpp
@@ -6,6 +6,7 @@
 #include <cstring>
 #include <fstream>
 #include <iostream>
+#include <string>
 #include <unordered_map>
 #include <vector>
 
@@ -73,15 +74,12 @@ r-hfc-mbc=true
 
 kahypar_context_t* CreateContext(const char* working_dir) {
   std::ofstream config_file;
-  char fname[500];
-  fname[0] = '\0';
-  strcpy(fname, working_dir);
-  strcat(fname, "/config.ini");
+  const std::string fname = std::string(working_dir) + "/config.ini";
   config_file.open(fname);
   config_file << kahypar_config;
   config_file.close();
   kahypar_context_t* context = kahypar_context_new();
-  kahypar_configure_context_from_file(context, fname);
+  kahypar_configure_context_from_file(context, fname.c_str());
   return context;
 }
 
diff --git a/uai_compiler.cpp b/uai_compiler.cpp
index d8f55fa..0a02197 100644
--- a/uai_compiler.cpp
+++ b/uai_compiler.cpp
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <cstring>
 #include <iostream>
+#include <string>
 
 #include "psdd/pgm_compiler.h"
 
@@ -64,13 +65,11 @@ int main(int argc, const char* argv[]) {
   auto result = pc.compile_network_dc(100);
 
   // output filename
-  char psdd_fname[1000];
-  char vtree_fname[1000];
-  sprintf(psdd_fname, "%s.psdd", uai_fname);
-  sprintf(vtree_fname, "%s.vtree", uai_fname);
+  const std::string psdd_fname = std::string(uai_fname) + ".psdd";
+  const std::string vtree_fname = std::string(uai_fname) + ".vtree";
 
-  psdd_node_util::WritePsddToFile(result.first, psdd_fname);
-  sdd_vtree_save(vtree_fname, pc.psdd_manager()->vtree());
+  psdd_node_util::WritePsddToFile(result.first, psdd_fname.c_str());
+  sdd_vtree_save(vtree_fname.c_str(), pc.psdd_manager()->vtree());
   std::cout << "Final size "
             << psdd_node_util::SerializePsddNodes(result.first).size()
             << std::endl;
-- 
2.43.0


From b06e0a323a8d45dfbb764f4e5529c341718e0d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:46 +0000
Subject: [PATCH 16/32] fix: the PSDD of a network of a single factor is
 normalised

---
 src/pgm_compiler.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pgm_compiler.cpp b/src/pgm_compiler.cpp
index e1562f1..b633336 100644
--- a/src/pgm_compiler.cpp
+++ b/src/pgm_compiler.cpp
@@ -176,8 +176,17 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_factor(
   PsddParameter result_norm = context_norm_cache->begin()->second;
   delete context_node_cache;
   delete context_norm_cache;
-  return {m_pm->NormalizePsddNode(m_pm->vtree(), result, /*flag_index*/ 0),
-          result_norm};
+  PsddNode* normalized_result =
+      m_pm->NormalizePsddNode(m_pm->vtree(), result, /*flag_index*/ 0);
+  if (m_network->factor_size() == 1) {
+    // There is no other factor to be multiplied with, and the variables outside
+    // of this factor are part of the partition, too.
+    auto product = m_pm->Multiply(
+        normalized_result,
+        m_pm->GetTrueNode(m_pm->vtree(), /*flag_index*/ 0), /*flag_index*/ 0);
+    return {product.first, product.second * result_norm};
+  }
+  return {normalized_result, result_norm};
 }
 std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
     size_t gc_freq) {
-- 
2.43.0


From b79dc4d9b92a927333c4796a3992c4d7be903e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:10 +0000
Subject: [PATCH 17/32] fix: compiling a network without an assignment of
 positive weight gives no PSDD and a zero partition

---
 src/pgm_compiler.cpp | 29 +++++++++++++++++++++++++++++
 uai_compiler.cpp     |  5 +++++
 2 files changed, 34 insertions(+)

diff --git a/src/pgm_compiler.cpp b/src/pgm_compiler.cpp
index b633336..575f20c 100644
--- a/src/pgm_compiler.cpp
+++ b/src/pgm_compiler.cpp
@@ -176,6 +176,10 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_factor(
   PsddParameter result_norm = context_norm_cache->begin()->second;
   delete context_node_cache;
   delete context_norm_cache;
+  if (result == nullptr) {
+    // All entries of the factor are zero.
+    return {nullptr, result_norm};
+  }
   PsddNode* normalized_result =
       m_pm->NormalizePsddNode(m_pm->vtree(), result, /*flag_index*/ 0);
   if (m_network->factor_size() == 1) {
@@ -207,6 +211,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
   auto factor_size = m_network->factor_size();
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
+    if (compiled_cluster.first == nullptr) {
+      return {nullptr, compiled_cluster.second};
+    }
     nodes.push_back(compiled_cluster.first);
     z = z * compiled_cluster.second;
     Vtree* attached_vnode = nullptr;
@@ -248,6 +255,10 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
                     << psdd_node_util::SerializePsddNodes(cur_node).size()
                     << std::endl;
           auto mult_result = m_pm->Multiply(total, cur_node, /*flag_index*/ 0);
+          if (mult_result.first == nullptr) {
+            // No assignment has a positive weight.
+            return {nullptr, mult_result.second};
+          }
           proc_nodes++;
           std::cout << "Processed " << proc_nodes << " Remaining "
                     << nodes.size() - proc_nodes << std::endl;
@@ -272,6 +283,10 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
     std::cout << "Processed " << proc_nodes << " Remaining "
               << nodes.size() - proc_nodes << std::endl;
     auto mult_result = m_pm->Multiply(a, b, /*flag_index*/ 0);
+    if (mult_result.first == nullptr) {
+      // No assignment has a positive weight.
+      return {nullptr, mult_result.second};
+    }
     z *= mult_result.second;
     output_buffer.push_back(mult_result.first);
     if ((proc_nodes % gc_freq) == 0) {
@@ -302,6 +317,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network(
   auto factor_size = m_network->factor_size();
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
+    if (compiled_cluster.first == nullptr) {
+      return {nullptr, compiled_cluster.second};
+    }
     nodes.push_back(compiled_cluster.first);
     z = z * compiled_cluster.second;
     // set factor order
@@ -336,6 +354,10 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network(
                 << std::endl;
       auto mult_result =
           m_pm->Multiply(final_result, cur_node, /*flag_index*/ 0);
+      if (mult_result.first == nullptr) {
+        // No assignment has a positive weight.
+        return {nullptr, mult_result.second};
+      }
       final_result = mult_result.first;
       z *= mult_result.second;
     }
@@ -363,6 +385,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_dc(
   auto factor_size = m_network->factor_size();
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
+    if (compiled_cluster.first == nullptr) {
+      return {nullptr, compiled_cluster.second};
+    }
     nodes.push_back(compiled_cluster.first);
     z = z * compiled_cluster.second;
     // set factor order
@@ -412,6 +437,10 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_dc(
     std::cout.width(15);
     std::cout << std::left << nodes.size() - proc_nodes << std::flush;
     auto mult_result = m_pm->Multiply(a, b, /*flag_index*/ 0);
+    if (mult_result.first == nullptr) {
+      // No assignment has a positive weight.
+      return {nullptr, mult_result.second};
+    }
     z *= mult_result.second;
     nodes_to_mult.push_back(mult_result.first);
     if ((proc_nodes % gc_freq) == 0) {
diff --git a/uai_compiler.cpp b/uai_compiler.cpp
index 0a02197..24dbd9f 100644
--- a/uai_compiler.cpp
+++ b/uai_compiler.cpp
@@ -63,6 +63,11 @@ int main(int argc, const char* argv[]) {
     pc.init_psdd_manager_from_vtree(vtree_method);
   }
   auto result = pc.compile_network_dc(100);
+  if (result.first == nullptr) {
+    std::cerr << "No assignment of the network has a positive weight."
+              << std::endl;
+    return 1;
+  }
 
   // output filename
   const std::string psdd_fname = std::string(uai_fname) + ".psdd";
-- 
2.43.0


From bbfe323d80ac11a4b33d5f50782eb54fc486abfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:44 +0000
Subject: [PATCH 18/32] fix: the vtree of the hypergraph method covers
 variables that are in no factor

---
 src/hypergraph_decomposition_vtree.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/hypergraph_decomposition_vtree.cpp b/src/hypergraph_decomposition_vtree.cpp
index af79254..fe1dfab 100644
--- a/src/hypergraph_decomposition_vtree.cpp
+++ b/src/hypergraph_decomposition_vtree.cpp
@@ -8,6 +8,7 @@
 #include <iostream>
 #include <string>
 #include <unordered_map>
+#include <unordered_set>
 #include <vector>
 
 #include "kahypar/libkahypar.h"
@@ -265,6 +266,16 @@ Vtree* HypergraphDecompositionVtree::ConstructVtree() {
     v = FactorGraphToVtree(context, std::move(factor_scope_cpy));
     set_vtree_properties(v);
   }
+  // The vtree also covers the variables that are in no factor.
+  std::unordered_set<SddLiteral> covered;
+  for (const auto& cur_factor_scope : factor_scopes) {
+    covered.insert(cur_factor_scope.begin(), cur_factor_scope.end());
+  }
+  for (SddLiteral i = 1; i <= network_->var_size(); ++i) {
+    if (covered.find(i) == covered.end()) {
+      v = new_internal_vtree(new_leaf_vtree(i), v);
+    }
+  }
   auto end = std::chrono::steady_clock::now();
   std::cout << "Hypergraph vtree takes time "
             << std::chrono::duration_cast<std::chrono::milliseconds>(end -
-- 
2.43.0


From c66456236b0b2f22f656530f99029a390ca0867e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:29 +0000
Subject: [PATCH 19/32] fix: convert PSDDs to SDDs without automatic collection
 of the intermediate SDD nodes

---
 src/psdd_node.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 6a82e71..0fbf23a 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -207,6 +207,10 @@ SddNode *ConvertPsddNodeToSddNode(
     const std::vector<PsddNode *> &serialized_psdd_nodes,
     const std::unordered_map<SddLiteral, SddLiteral> &variable_map,
     SddManager *sdd_manager) {
+  // The intermediate SDD nodes are not referenced, an automatic collection
+  // would remove them.
+  const bool auto_mode = sdd_manager_is_auto_gc_and_minimize_on(sdd_manager) != 0;
+  sdd_manager_auto_gc_and_minimize_off(sdd_manager);
   for (auto node_it = serialized_psdd_nodes.rbegin();
        node_it != serialized_psdd_nodes.rend(); ++node_it) {
     PsddNode *cur_node = *node_it;
@@ -247,6 +251,9 @@ SddNode *ConvertPsddNodeToSddNode(
   for (PsddNode *cur_node : serialized_psdd_nodes) {
     cur_node->SetUserData(0);
   }
+  if (auto_mode) {
+    sdd_manager_auto_gc_and_minimize_on(sdd_manager);
+  }
   return root_logic;
 }
 
-- 
2.43.0


From 06d50f9f21c0d3ab20c4884d5bde961aef59e8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:35 +0000
Subject: [PATCH 20/32] fix: compile networks with factors without variables

---
 src/pgm_compiler.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pgm_compiler.cpp b/src/pgm_compiler.cpp
index 575f20c..c0837e3 100644
--- a/src/pgm_compiler.cpp
+++ b/src/pgm_compiler.cpp
@@ -39,6 +39,16 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_factor(
   std::vector<size_t> factor_scope = m_network->factor_scopes()[factor_index];
   const auto& cluster_param = m_network->params()[factor_index];
   Vtree* vtree = m_pm->vtree();
+  if (factor_scope.empty()) {
+    // A constant, which weights all the assignments alike.
+    PsddParameter weight = cluster_param[0];
+    if (weight == PsddParameter::CreateFromDecimal(0)) {
+      return {nullptr, weight};
+    }
+    PsddNode* true_node = m_pm->GetTrueNode(vtree, /*flag_index*/ 0);
+    auto product = m_pm->Multiply(true_node, true_node, /*flag_index*/ 0);
+    return {product.first, product.second * weight};
+  }
   // LSB is the first variable in ordered_cluster_variables now
   std::reverse(factor_scope.begin(), factor_scope.end());
   std::vector<Vtree*> leaf_v_nodes;
@@ -216,7 +226,8 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
     }
     nodes.push_back(compiled_cluster.first);
     z = z * compiled_cluster.second;
-    Vtree* attached_vnode = nullptr;
+    Vtree* attached_vnode =
+        m_network->factor_scopes()[i].empty() ? m_pm->vtree() : nullptr;
     for (auto j : m_network->factor_scopes()[i]) {
       if (attached_vnode == nullptr) {
         attached_vnode = var_to_vtree[j];
-- 
2.43.0


From cf9f934690db03af4e1c60c56c9293e2c2f611f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:48 +0000
Subject: [PATCH 21/32] fix: read every clause of a CNF line and reject lines
 that are not clauses

---
 src/cnf.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cnf.cpp b/src/cnf.cpp
index 5bf81f6..9bedd3e 100644
--- a/src/cnf.cpp
+++ b/src/cnf.cpp
@@ -64,10 +64,21 @@ CNF::CNF(const char *filename) {
     SddLiteral token;
     while (ss >> token) {
       if (token == 0) {
-        break;
+        if ((ss >> std::ws).eof()) {
+          break;
+        }
+        // another clause follows on the same line
+        clauses_.push_back(clause);
+        clause.clear();
+        continue;
       }
       clause.push_back(token);
     }
+    if (!ss.eof()) {
+      std::cerr << "File " << filename
+                << " has a line that is not a clause: " << line << std::endl;
+      exit(1);  // terminate with error
+    }
     clauses_.push_back(clause);
   }
   if (cnf_file.bad()) {
-- 
2.43.0


From 3b9c14c4efa40b254c9af047d7fa63fe75171fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:13 +0000
Subject: [PATCH 22/32] fix: networks without factors or with constant factors
 only

---
 src/hypergraph_decomposition_vtree.cpp | 14 +++++++++++---
 src/pgm_compiler.cpp                   | 15 +++++++++++++++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/hypergraph_decomposition_vtree.cpp b/src/hypergraph_decomposition_vtree.cpp
index fe1dfab..0c3d1fe 100644
--- a/src/hypergraph_decomposition_vtree.cpp
+++ b/src/hypergraph_decomposition_vtree.cpp
@@ -2,6 +2,7 @@
 
 #include <assert.h>
 
+#include <algorithm>
 #include <chrono>
 #include <cstring>
 #include <fstream>
@@ -260,9 +261,15 @@ Vtree* HypergraphDecompositionVtree::ConstructVtree() {
     std::vector<SddLiteral> t(cur_factor_scope.begin(), cur_factor_scope.end());
     factor_scope_cpy.emplace_back(std::move(t));
   }
-  Vtree* v = BaseCase(factor_scope_cpy);
+  // Factors without variables have no part in the vtree.
+  factor_scope_cpy.erase(
+      std::remove_if(
+          factor_scope_cpy.begin(), factor_scope_cpy.end(),
+          [](const std::vector<SddLiteral>& s) { return s.empty(); }),
+      factor_scope_cpy.end());
+  Vtree* v = factor_scope_cpy.empty() ? nullptr : BaseCase(factor_scope_cpy);
   auto start = std::chrono::steady_clock::now();
-  if (v == nullptr) {
+  if (v == nullptr && !factor_scope_cpy.empty()) {
     v = FactorGraphToVtree(context, std::move(factor_scope_cpy));
     set_vtree_properties(v);
   }
@@ -273,7 +280,8 @@ Vtree* HypergraphDecompositionVtree::ConstructVtree() {
   }
   for (SddLiteral i = 1; i <= network_->var_size(); ++i) {
     if (covered.find(i) == covered.end()) {
-      v = new_internal_vtree(new_leaf_vtree(i), v);
+      Vtree* leaf = new_leaf_vtree(i);
+      v = v == nullptr ? leaf : new_internal_vtree(leaf, v);
     }
   }
   auto end = std::chrono::steady_clock::now();
diff --git a/src/pgm_compiler.cpp b/src/pgm_compiler.cpp
index c0837e3..935af9d 100644
--- a/src/pgm_compiler.cpp
+++ b/src/pgm_compiler.cpp
@@ -247,6 +247,11 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
     }
   }
   std::cout << "Finished Loading factors" << std::endl;
+  if (nodes.empty()) {
+    // The empty product: every assignment has the weight one.
+    PsddNode* true_node = m_pm->GetTrueNode(m_pm->vtree(), /*flag_index*/ 0);
+    return m_pm->Multiply(true_node, true_node, /*flag_index*/ 0);
+  }
   int proc_nodes = 0;
   std::reverse(serialized_vtree.begin(), serialized_vtree.end());
   std::deque<PsddNode*> output_buffer;
@@ -342,6 +347,11 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network(
     }
   }
   std::cout << "Finished Loading factors" << std::endl;
+  if (nodes.empty()) {
+    // The empty product: every assignment has the weight one.
+    PsddNode* true_node = m_pm->GetTrueNode(m_pm->vtree(), /*flag_index*/ 0);
+    return m_pm->Multiply(true_node, true_node, /*flag_index*/ 0);
+  }
   std::vector<size_t> compilation_order;
   for (auto i = 0; i < nodes.size(); ++i) {
     compilation_order.push_back(i);
@@ -410,6 +420,11 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_dc(
     }
   }
   std::cout << "Finished Loading factors" << std::endl;
+  if (nodes.empty()) {
+    // The empty product: every assignment has the weight one.
+    PsddNode* true_node = m_pm->GetTrueNode(m_pm->vtree(), /*flag_index*/ 0);
+    return m_pm->Multiply(true_node, true_node, /*flag_index*/ 0);
+  }
   std::vector<size_t> compilation_order;
   for (auto i = 0; i < nodes.size(); ++i) {
     compilation_order.push_back(i);
-- 
2.43.0


From c5c0bff9c4f15445d198a72c14cb043ee376fca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:58 +0000
Subject: [PATCH 23/32] fix: the CSV reader read past the end of a string it
 had finished

---
 src/csvparser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvparser.c b/src/csvparser.c
index 3c3a31a..5d5c787 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -148,10 +148,12 @@ CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
   while (1) {
     char currChar =
         (csvParser->fromString_) ? csvParser->csvString_[csvParser->csvStringIter_] : fgetc(csvParser->fileHandler_);
-    csvParser->csvStringIter_++;
     int endOfFileIndicator;
     if (csvParser->fromString_) {
       endOfFileIndicator = (currChar == '\0');
+      if (!endOfFileIndicator) {
+        csvParser->csvStringIter_++;
+      }
     } else {
       endOfFileIndicator = feof(csvParser->fileHandler_);
       if (ferror(csvParser->fileHandler_)) {
-- 
2.43.0


From 07ec2ff0bfa120880121ab886e45455d388ad5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:58 +0000
Subject: [PATCH 24/32] fix: a long name of a missing CSV file overflowed the
 message buffer

---
 src/csvparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvparser.c b/src/csvparser.c
index 5d5c787..3c5e3d5 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -126,7 +126,7 @@ CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
       if (csvParser->fileHandler_ == NULL) {
         int errorNum = errno;
         const char *errStr = strerror(errorNum);
-        char *errMsg = (char *) malloc(1024 + strlen(errStr));
+        char *errMsg = (char *) malloc(64 + strlen(csvParser->filePath_) + strlen(errStr));
         strcpy(errMsg, "");
         sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
         _CsvParser_setErrorMessage(csvParser, errMsg);
-- 
2.43.0


From cdb11825e490287d0a7a1971d2ecaf1acb0c04cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:03 +0000
Subject: [PATCH 25/32] fix: a CSV input that ends in an opening quote
 overflowed the field buffers

---
 src/csvparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvparser.c b/src/csvparser.c
index 3c5e3d5..79964bf 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -192,7 +192,7 @@ CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
       seriesOfQuotesLength = 0;
     }
     if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
-      currField[lastCharIsQuote ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
+      currField[lastCharIsQuote && currFieldCharIter > 0 ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
       csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
       strcpy(csvRow->fields_[fieldIter], currField);
       free(currField);
-- 
2.43.0


From a9b502fadfb918079248ef03245f1886015e15a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:12 +0000
Subject: [PATCH 26/32] fix: reading vtree files in several threads at once
 shared the state of strtok

---
 src/pgm_compiler.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pgm_compiler.cpp b/src/pgm_compiler.cpp
index 935af9d..5ee4ea1 100644
--- a/src/pgm_compiler.cpp
+++ b/src/pgm_compiler.cpp
@@ -12,6 +12,7 @@
 #include <fstream>
 #include <iostream>
 #include <memory>
+#include <mutex>
 #include <set>
 #include <string>
 #include <type_traits>
@@ -482,7 +483,14 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_dc(
 }
 
 void PgmCompiler::init_psdd_manager_from_vtree(const char* vtree_fname) {
-  Vtree* v = sdd_vtree_read(vtree_fname);
+  Vtree* v = nullptr;
+  {
+    // The SDD library parses vtree files with strtok, which has one state for
+    // all threads.
+    static std::mutex vtree_read_mutex;
+    std::lock_guard<std::mutex> lock(vtree_read_mutex);
+    v = sdd_vtree_read(vtree_fname);
+  }
   m_pm = PsddManager::GetPsddManagerFromVtree(v);
   sdd_vtree_free(v);
   return;
-- 
2.43.0


From 4d0e85cfce830c888c3fad6f5430f1ab0115c9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:35 +0000
Subject: [PATCH 27/32] fix: compilers that share a working directory could
 read a partly written configuration file

---
 src/hypergraph_decomposition_vtree.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/hypergraph_decomposition_vtree.cpp b/src/hypergraph_decomposition_vtree.cpp
index 0c3d1fe..89c0974 100644
--- a/src/hypergraph_decomposition_vtree.cpp
+++ b/src/hypergraph_decomposition_vtree.cpp
@@ -1,9 +1,12 @@
 #include "psdd/hypergraph_decomposition_vtree.h"
 
 #include <assert.h>
+#include <unistd.h>
 
 #include <algorithm>
+#include <atomic>
 #include <chrono>
+#include <cstdio>
 #include <cstring>
 #include <fstream>
 #include <iostream>
@@ -77,9 +80,15 @@ r-hfc-mbc=true
 kahypar_context_t* CreateContext(const char* working_dir) {
   std::ofstream config_file;
   const std::string fname = std::string(working_dir) + "/config.ini";
-  config_file.open(fname);
+  // Other compilers may use the same working directory at the same time, they
+  // never see a part of the file.
+  static std::atomic<unsigned> file_count(0);
+  const std::string tmp_fname = fname + "." + std::to_string(getpid()) + "." +
+                                std::to_string(file_count++);
+  config_file.open(tmp_fname);
   config_file << kahypar_config;
   config_file.close();
+  std::rename(tmp_fname.c_str(), fname.c_str());
   kahypar_context_t* context = kahypar_context_new();
   kahypar_configure_context_from_file(context, fname.c_str());
   return context;
-- 
2.43.0


From 63ce3fea56b75c5a806736f961839f236c989f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:24 +0000
Subject: [PATCH 28/32] fix: examples with numbers that are no variables (0,
 negative, fractions) were not skipped

---
 src/binary_data.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 3ba2574..cd95f22 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -144,7 +144,9 @@ BinaryData *BinaryData::ReadSparseDataJsonFile(const char *data_file) {
          positive_variable_it != cur_example.end(); ++positive_variable_it) {
       const auto &cur_variable = *positive_variable_it;
       if (cur_variable.is_number()) {
-        if (cur_variable <= variable_size) {
+        // Variables are whole numbers from 1 on.
+        if (cur_variable >= 1 && cur_variable <= variable_size &&
+            cur_variable == (uint32_t)cur_variable) {
           cur_example_bitset.set(cur_variable);
         } else {
           legal_data = false;
-- 
2.43.0


From 5d20d067173c47f885a96b7149bed1273f517717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:24 +0000
Subject: [PATCH 29/32] fix: a sparse data file whose data is no list was read
 as a data set

---
 src/binary_data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index cd95f22..e7e9180 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -125,6 +125,7 @@ BinaryData *BinaryData::ReadSparseDataJsonFile(const char *data_file) {
   const auto &data = data_input_json["data"];
   if (!data.is_array()) {
     std::cerr << "data is not an array in the json input" << std::endl;
+    return nullptr;
   }
   auto new_dataset = new BinaryData();
   new_dataset->set_variable_size((uint32_t)variable_size);
-- 
2.43.0


From 28fcc5ec4be58d0c4ffa2c30736e52516ccdae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:24 +0000
Subject: [PATCH 30/32] fix: blank lines with blanks or a carriage return in a
 network file were read as tables

---
 src/uai_network.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uai_network.cpp b/src/uai_network.cpp
index 48e97cc..b906e7a 100644
--- a/src/uai_network.cpp
+++ b/src/uai_network.cpp
@@ -70,7 +70,7 @@ void UaiNetwork::read_file(const char* uai_file) {
   }
   for (int i = 0; i < m_factor_size; i++) {
     ReadLine(&uaifs, uai_file, &string_buf);
-    while (string_buf == "") {
+    while (string_buf.find_first_not_of(" \t\r") == std::string::npos) {
       ReadLine(&uaifs, uai_file, &string_buf);
     }
     size_t entry_cnt;
-- 
2.43.0


From df27dc912357f461d03c6d1e30045eab0bf52c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:24 +0000
Subject: [PATCH 31/32] fix: malformed scopes and tables of a network file were
 read as another network

---
 src/uai_network.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/uai_network.cpp b/src/uai_network.cpp
index b906e7a..d08c303 100644
--- a/src/uai_network.cpp
+++ b/src/uai_network.cpp
@@ -20,6 +20,11 @@ void ReadLine(std::ifstream* uaifs, const char* uai_file,
     exit(1);
   }
 }
+[[noreturn]] void RejectFile(const char* uai_file, const char* reason) {
+  std::cerr << "factor file " << uai_file << " cannot be read: " << reason
+            << "." << std::endl;
+  exit(1);
+}
 }  // namespace
 
 UaiNetwork::UaiNetwork() {}
@@ -64,8 +69,14 @@ void UaiNetwork::read_file(const char* uai_file) {
     int size;
     iss >> size;
     while (iss >> var_index) {
+      if (var_index < 0 || (size_t)var_index >= m_var_size) {
+        RejectFile(uai_file, "a factor has an unknown variable");
+      }
       order_list.push_back((size_t)(var_index + 1));
     }
+    if (!iss.eof() || order_list.size() != (size_t)size) {
+      RejectFile(uai_file, "the scope of a factor is malformed");
+    }
     m_clusters.push_back(order_list);
   }
   for (int i = 0; i < m_factor_size; i++) {
@@ -75,23 +86,29 @@ void UaiNetwork::read_file(const char* uai_file) {
     }
     size_t entry_cnt;
     std::istringstream iss(string_buf);
-    iss >> entry_cnt;
+    if (!(iss >> entry_cnt) || m_clusters[i].size() >= 32 ||
+        entry_cnt != (size_t)1 << m_clusters[i].size()) {
+      RejectFile(uai_file, "a table does not fit its scope");
+    }
     double cur_entry;
     std::vector<PsddParameter> param_list;
     param_list.reserve(entry_cnt);
     while (iss >> cur_entry) {
       param_list.push_back(PsddParameter::CreateFromDecimal(cur_entry));
     }
-    while (param_list.size() < entry_cnt) {
+    bool malformed = !iss.eof();
+    while (!malformed && param_list.size() < entry_cnt) {
       ReadLine(&uaifs, uai_file, &string_buf);
       iss.str(string_buf);
       iss.clear();
       while (iss >> cur_entry) {
         param_list.push_back(PsddParameter::CreateFromDecimal(cur_entry));
       }
+      malformed = !iss.eof();
+    }
+    if (malformed || param_list.size() != entry_cnt) {
+      RejectFile(uai_file, "the entries of a table are malformed");
     }
-    assert(param_list.size() == entry_cnt);
-    assert(entry_cnt != 0);
     m_params.push_back(param_list);
   }
 }
-- 
2.43.0


From 1864968e84aac0eaea8f0ec0da7a2ec9d3790975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:42:13 +0000
Subject: [PATCH 32/32] fix: a field that is a sign alone at the end of a line
 of a network file was skipped

---
 src/uai_network.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/uai_network.cpp b/src/uai_network.cpp
index d08c303..7d4b639 100644
--- a/src/uai_network.cpp
+++ b/src/uai_network.cpp
@@ -20,6 +20,14 @@ void ReadLine(std::ifstream* uaifs, const char* uai_file,
     exit(1);
   }
 }
+// The number of fields of a line that are separated by blanks.
+size_t CountFields(const std::string& line) {
+  std::istringstream iss(line);
+  std::string field;
+  size_t count = 0;
+  while (iss >> field) ++count;
+  return count;
+}
 [[noreturn]] void RejectFile(const char* uai_file, const char* reason) {
   std::cerr << "factor file " << uai_file << " cannot be read: " << reason
             << "." << std::endl;
@@ -74,7 +82,8 @@ void UaiNetwork::read_file(const char* uai_file) {
       }
       order_list.push_back((size_t)(var_index + 1));
     }
-    if (!iss.eof() || order_list.size() != (size_t)size) {
+    if (!iss.eof() || order_list.size() != (size_t)size ||
+        order_list.size() + 1 != CountFields(string_buf)) {
       RejectFile(uai_file, "the scope of a factor is malformed");
     }
     m_clusters.push_back(order_list);
@@ -96,7 +105,9 @@ void UaiNetwork::read_file(const char* uai_file) {
     while (iss >> cur_entry) {
       param_list.push_back(PsddParameter::CreateFromDecimal(cur_entry));
     }
-    bool malformed = !iss.eof();
+    // A field that is no number, for instance a sign alone, ends the reading.
+    size_t field_cnt = CountFields(string_buf) - 1;
+    bool malformed = !iss.eof() || param_list.size() != field_cnt;
     while (!malformed && param_list.size() < entry_cnt) {
       ReadLine(&uaifs, uai_file, &string_buf);
       iss.str(string_buf);
@@ -104,7 +115,8 @@ void UaiNetwork::read_file(const char* uai_file) {
       while (iss >> cur_entry) {
         param_list.push_back(PsddParameter::CreateFromDecimal(cur_entry));
       }
-      malformed = !iss.eof();
+      field_cnt += CountFields(string_buf);
+      malformed = !iss.eof() || param_list.size() != field_cnt;
     }
     if (malformed || param_list.size() != entry_cnt) {
       RejectFile(uai_file, "the entries of a table are malformed");
-- 
2.43.0

