#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties is kept here, one call each)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": observe, "hook_needed": hook}})
M = "src/psdd_manager.cpp"; N = "src/psdd_node.cpp"; U = "src/psdd_unique_table.cpp"

prop("C01", "Multiply returns exactly the normalised pointwise product",
 "For two PSDDs with positive parameters of one manager's vtree, Multiply returns a normalised PSDD and a partition value such that result(x) * partition equals first(x) * second(x) for every complete assignment x, and it returns (no PSDD, zero) exactly when the two have no common model. The arguments are left as they were, and the answer does not depend on what the manager did before: other clients' operations, garbage collections, failed operations, or argument order.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "Every pair of PSDDs with non-zero parameters on every vtree (indicator PSDDs from SDDs, sampled, learned, loaded, multiplied, structurally shared or identical arguments, any flags), at every point of every interleaved history of the clients of one manager, including after collections and failed operations.",
 "The existing tests multiply a few fixed constraints once each in a fresh manager; they never reuse a manager whose unique table has been filled by other clients, collected, or hit by a failed operation.",
 [M], [("computation cache", "product of each pair of nodes within one call", M + ":ComputationCache"), ("unique table", "node sharing across all calls on the manager", U)],
 [("MultiplyWithCache", M), ("GetConformedPsddDecisionNode", M)], ["PsddManager::Multiply result, evaluated structurally on all assignments"])
prop("C02", "Evaluate returns the exact probability of complete and partial evidence",
 "For a normalised PSDD, evaluating an assignment of any subset of its variables returns the sum of the PSDD's distribution over all completions (zero for an impossible one), and for any PSDD a complete assignment returns its value. Both forms of the call agree, variables outside the PSDD are ignored, and earlier or failed queries and other clients' operations on shared nodes change nothing.",
 ["inputs", "histories", "schedules"],
 "Every PSDD reachable by any history of operations on a manager, every variable mask and instantiation, at every point of the history.",
 "The tests evaluate a handful of assignments on fixed PSDDs straight after building them; shared nodes, reused managers and partial evidence after other queries are not sampled.",
 [N], [("evaluation cache", "value of each node by node index", N + ":Evaluate")], [("Evaluate", N), ("SerializePsddNodes", N)], ["psdd_node_util::Evaluate"])
prop("C03", "The MPE query returns a most probable assignment and its probability",
 "For every PSDD with a model the MPE query returns an assignment of its variables whose value under the PSDD is the maximum over all assignments (up to the parameter comparison resolution) together with exactly that value, and the assignment is a model of the PSDD. No earlier, interleaved or failed operation on shared nodes changes the answer.",
 ["inputs", "histories", "schedules"],
 "Every PSDD reachable by any history (normalised or not), including ties, zero and extreme parameters and heavily shared nodes, queried at every point of the history.",
 "psdd_mpe_test checks two hand-made PSDDs; maxima depend on every parameter combination and on scratch values left on shared nodes.",
 [N], [("node user data", "per-node scratch holding the running maximum", N + ":GetMPESolution")], [("GetMPESolution", N)], ["psdd_node_util::GetMPESolution"])
prop("C04", "Marginals equal the true single-variable marginals",
 "For every normalised PSDD the marginals query returns, for exactly the variables of the PSDD, the pair (probability false, probability true) of its distribution, each pair summing to one. Interleaved operations on the same nodes do not disturb it.",
 ["inputs", "histories", "schedules"],
 "Every normalised PSDD reachable by any history of operations, queried at every point of that history.",
 "No unit test covers marginals beyond one fixed network; derivative propagation depends on node sharing and order, which only arbitrary histories produce.",
 [N], [("node user data", "index of each node in the derivative array", N + ":GetMarginals")], [("GetMarginals", N)], ["psdd_node_util::GetMarginals"])
prop("C05", "Model count, consistency and size queries agree with the PSDD's support",
 "The model count equals the number of assignments in the support of the PSDD (exactly, for any number of variables), every consistency query says yes exactly when some model agrees with the given partial assignment, and the reported size counts each distinct node once; listing the nodes of one or several PSDDs gives each node once and before its children. Answers do not depend on earlier queries or on other PSDDs sharing nodes.",
 ["inputs", "histories", "schedules"],
 "Every PSDD with non-zero parameters reachable by any history (including hundreds of variables, where counts exceed 64 bits), every mask and partial assignment, every order of queries.",
 "The tests count models of a few constraints; the activation flags that the queries leave on shared nodes only matter across histories, and large counts are not sampled.",
 [N], [("activation flag", "per-node consistency mark that must be reset after each query", N + ":IsConsistent"), ("count cache", "count per node", N + ":ModelCount")], [("ModelCount", N), ("IsConsistent", N), ("GetPsddSize", N)], ["ModelCount, IsConsistent (all forms), GetPsddSize"])
prop("C06", "Equal constructions are one node; different distributions never merge",
 "At every point of a manager's life, two live nodes obtained from it with the same flag and the same content (variable or literal, same children in any element order, same parameters) are the same node, so equality is pointer equality. Requests whose parameters differ by more than the comparison resolution always yield nodes that keep exactly the requested content. The unique table behind it keeps this when used on its own: it forgets exactly the nodes whose flag is not among those to be kept, and releases exactly the nodes the given roots do not reach.",
 ["inputs", "histories", "schedules"],
 "Every sequence of node requests by all clients of a manager (literals, top nodes, decisions, true nodes, any flags), with collections and failures in between.",
 "The tests compare pointers for one or two nodes in a fresh manager; which nodes collide depends on everything already in the table and on comparisons of all pairs of contents.",
 [U, N, M], [("unique table", "one ordered set of nodes per vtree position and node kind", U + ":PsddUniqueTableImp"), ("node index", "creation counter used as identity in comparisons", M)], [("PsddUniqueTableSetFunctional", U), ("GetUniqueNode", U), ("element ordering in the decision node constructor", N)], ["pointers and contents returned by GetPsddTopNode, GetPsddLiteralNode, GetConformedPsddDecisionNode, GetTrueNode"])
prop("C07", "Garbage collection never harms PSDDs that are still in use",
 "After a collection with any set of in-use roots, every node reachable from those roots is still valid with unchanged content, keeps its identity when the same content is requested again, and every later operation gives the answers it would have given without the collection.",
 ["histories", "schedules", "inputs"],
 "Every placement of collections in every interleaved history, every choice of in-use roots (duplicates, shared substructure, sub-PSDDs, roots of several flags, none).",
 "DeleteUnusedPsddNodes is marked 'TODO: testing this function' and no test calls it; harm shows only for particular sharing patterns and later operations.",
 [U, N], [("unique table", "sets that must lose exactly the unreachable nodes", U + ":DeleteUnusedPsddNodes")], [("GetCoveredPsddNodes", N), ("DeleteUnusedPsddNodes", U)], ["roots kept across PsddManager::DeleteUnusedPsddNodes, freed memory is poisoned"])
prop("C08", "Collection and manager destruction release everything unused",
 "A collection releases every node that is not reachable from the given roots, destroying a manager releases all of its nodes, and repeating a workload with collections does not make memory grow.",
 ["histories", "fault_sequences"],
 "Every history of operations and collections on a manager, every set of roots, and destruction at any point, also of one manager while others live on.",
 "No test measures memory or calls the collector; a leak is invisible to value assertions.",
 [U, M, N], [("live allocations", "blocks obtained through operator new by the library", "harness allocator")], [("DeleteUnusedPsddNodes", U), ("PsddManager::~PsddManager", M)], ["operator new/delete accounting around PsddManager::DeleteUnusedPsddNodes and delete manager"])
prop("C09", "SDD to PSDD conversion and back preserve the models exactly",
 "Converting an SDD to a PSDD (whole vtree, or a sub-vtree of the manager, with renamed variables) yields a PSDD whose support is exactly the SDD's models with every unconstrained variable free, false giving no PSDD; converting a PSDD to an SDD yields a function with exactly the PSDD's support. Neither conversion disturbs the SDD manager, the vtrees, or other PSDDs, so conversions can be repeated and interleaved.",
 ["inputs", "histories", "schedules"],
 "Every Boolean function, vtree, variable renaming and sub-vtree, in every interleaving with other conversions and operations over the same vtrees and managers.",
 "The tests convert a few constraints once; tags left in shared vtrees or nodes only hurt a later operation.",
 [M, N], [("vtree data slots", "temporary tags linking SDD and PSDD vtrees", M + ":TagSddVtreeWithPsddVtree"), ("node user data", "temporary SDD per node", N + ":ConvertPsddNodeToSddNode")], [("ConvertSddToPsdd", M), ("FromSdd", M), ("ConvertPsddNodeToSddNode", N), ("NormalizePsddNode", M)], ["support of converted PSDDs and models of converted SDDs"])
prop("C10", "A CNF compiles to exactly its models, and a bad CNF file is never accepted",
 "Compiling a CNF (given by clauses or read from a DIMACS file) gives a PSDD whose support is exactly the CNF's satisfying assignments over the manager's variables, and no PSDD when it is unsatisfiable. A file that is missing, whose reading fails or that has a line which is no clause is reported as an error instead of being taken for another formula; benign I/O behaviour (short reads, interrupted calls) never changes the result.",
 ["inputs", "histories", "fault_sequences"],
 "Every CNF over the manager's variables (empty formula, unit, tautological, duplicate, redundant and very wide clauses; files with one or several clauses on lines of any length, comment lines and blank lines, and with lines that are no clause), in any manager state and vtree; every pattern of short reads, interruptions and read errors while its file is read.",
 "Tests compile two or three clauses from memory and one file, never with a failing read or in a used manager.",
 ["src/cnf.cpp", M], [("clauses", "parsed clause list", "src/cnf.cpp")], [("CNF::CNF(const char*)", "src/cnf.cpp"), ("CNF::Compile", "src/cnf.cpp")], ["CNF::clauses, CNF::Compile result"])
prop("C11", "Parameter learning gives the closed-form estimate from this data only",
 "Learning returns the same structure whose every parameter is (count + alpha) / (total + alpha * number of branches), where the counts come from exactly the examples that reach the node in the given data set (with alpha zero, a node that no example reaches gets equal parameters). The result depends only on structure, data and alpha: earlier, failed or interleaved learning and queries on shared nodes contribute nothing.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "Every structure, every data set (empty, duplicates, examples outside the support, sizes around word boundaries, tens of thousands of examples), every alpha >= 0, at any point of a history including directly after a learning call that failed for lack of memory.",
 "psdd_learning_test learns once per manager on two small data sets, so stale counts, shared structures and failed calls never occur.",
 [M, N], [("data counts", "per-node counters", N + ":IncrementDataCount/ResetDataCount"), ("batched values", "per-example bit vectors on the nodes", M + ":LearnPsddParameters")], [("LearnPsddParameters", M)], ["parameters of the learned PSDD"])
prop("C12", "Parameter sampling normalises the generator's draws and keeps the structure",
 "Sampling parameters for one or several PSDDs returns, in order, PSDDs with the same structure in which each node's parameters are fresh positive draws divided by their sum; nodes shared between the roots stay shared, the inputs stay unchanged, and with the same draws the same result comes back. The library's gamma generator yields finite non-negative draws with the requested mean, the same sequence for the same seed whatever other generators do.",
 ["inputs", "histories", "schedules"],
 "Every list of root PSDDs of a manager (shared, repeated, one a part of another), every sequence of positive draws including extreme ratios, in any manager state.",
 "The tests only check that sampling a single PSDD keeps its model count, with one seeded generator.",
 [M, N, "src/random_double_generator.cpp"], [("node user data", "new node for each old node", M + ":SampleParametersForMultiplePsdds")], [("SampleParametersForMultiplePsdds", M), ("RandomDoubleGenerator::generate", "include/psdd/random_double_generator.h")], ["sampled PSDDs versus the recorded draws"])
prop("C13", "Direct sampling follows the distribution for every sequence of draws",
 "For every sequence of draws from the generator's range, drawing a sample from a normalised PSDD terminates with an assignment of positive probability that sets nothing outside the PSDD's variables, and equally spaced draws select each branch in proportion to its parameter. Sampling does not change the PSDD. The library's uniform generator stays in its range, reports it, and yields the same sequence for the same seed whatever other generators do.",
 ["inputs", "histories", "schedules"],
 "Every normalised PSDD (also read back from a file or learned, so that parameters sum to one only up to rounding), every draw sequence in [min, max) including the extreme ones, in any manager state.",
 "Tests draw from one seeded generator and never see the extreme draws or rounded parameters.",
 [N], [("random draws", "values of RandomDoubleFromUniformGenerator::generate", "src/random_double_generator.cpp")], [("PsddDecisionNode::DirectSample", N), ("PsddTopNode::DirectSample", N)], ["PsddNode::DirectSample"])
prop("C14", "A PSDD file written and read back is the same distribution",
 "Writing a PSDD and reading the file, in the same or a later process and with a manager for the same vtree, gives a PSDD with the same structure and the same parameters up to the precision of the file, for any fragmentation of the underlying reads and writes. An equivalent file - comments anywhere, any distinct node numbers, any order in which nodes follow their children, elements in any order - reads as the same PSDD. Writing leaves the PSDD usable and unchanged, and writing again gives an equivalent file.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "Every PSDD (single nodes, sub-vtrees, zero parameters, thousands of nodes), every history before and between, every pattern of short or interrupted reads and writes, restart between write and read.",
 "Tests round-trip one learned PSDD through a real file with whole-buffer I/O.",
 [N, M], [("file", "text form of the PSDD", N + ":WritePsddToFile"), ("construct cache", "file id to node", M + ":ReadPsddFile")], [("WritePsddToFile", N), ("ReadPsddFile", M)], ["distribution and node count after reading back"])
prop("C15", "A failed or torn file operation is reported, never silently wrong",
 "If writing a PSDD or data file fails (full disk, I/O error) the writing process does not finish as if it had succeeded; if a PSDD file is cut short by a crash or its reading fails, the reader stops with an error or returns the complete PSDD, but never returns a different distribution or leaves a damaged manager.",
 ["fault_sequences", "crash_points", "inputs"],
 "Every PSDD and data set, every byte at which a write or read fails, every byte at which a crash cuts a PSDD file short.",
 "No test injects an I/O error or reads a truncated file.",
 [N, M, "src/binary_data.cpp"], [("file", "partially written file after a fault", N + ":WritePsddToFile")], [("WritePsddToFile", N), ("ReadPsddFile", M), ("BinaryData::WriteFile", "src/binary_data.cpp")], ["exit status of the simulated process, distribution of what was read"])
prop("C16", "PSDDs moved between managers are exact and independent copies",
 "Loading a PSDD into another manager over the same vtree (or a vtree that contains it), normalising it to a larger vtree, and multiplying PSDDs that come from different managers give PSDDs owned by the target manager with exactly the expected distribution. Afterwards the source can be collected or destroyed, and the target used, without affecting each other.",
 ["inputs", "histories", "schedules"],
 "Every pair of managers with compatible vtrees, every PSDD, every order of transfers, collections and destruction of either side.",
 "Tests never use two managers at once.",
 [M, N], [("node user data", "map from source node to copy, stored on the source's nodes", M + ":LoadPsddNode")], [("LoadPsddNode", M), ("NormalizePsddNode", M)], ["distribution of the copy, ownership after the source is destroyed"])
prop("C17", "A failed operation leaves no trace on later results",
 "If an operation fails part-way because memory runs out or the caller's random generator throws, the exception reaches the caller and everything that existed before - all PSDDs held by any client, and the manager - stays valid and unchanged; repeating the operation, or doing any other one, gives the answer it would have given without the failure. (Operations on files may instead end the process with an error.)",
 ["fault_sequences", "histories", "inputs"],
 "Every operation of the library, every allocation or draw inside it as the failing one, every following history, including several failures in a row.",
 "No test fails an allocation; each operation has hundreds of distinct failure points.",
 [M, N, U], [("per-node scratch", "user data, activation flags, counters and batched values that an aborted operation leaves behind", N), ("unique table", "must not keep a half-inserted node", U)], [("exception paths through all public operations", M)], ["results after an injected std::bad_alloc or generator exception"])
prop("C18", "Managers used by different threads do not influence each other",
 "Threads that each work on their own managers, files and generators obtain exactly the results they would obtain alone, however their steps interleave, also when their compilers are given the same working directory.",
 ["schedules", "histories", "inputs"],
 "Every interleaving of the allocation, I/O and random-draw steps of two to four threads that share no manager, for every mix of operations.",
 "All tests are single-threaded; a shared static cache or scratch buffer would pass them.",
 [M, N, U], [("process-wide state", "none is allowed to exist outside a manager", M)], [("all state is held in PsddManager, nodes and locals", M)], ["transcript of each thread compared with its solo run"])
prop("C19", "Data sets keep every record and its multiplicity through memory and files",
 "A data set holds exactly the multiset of records added to it or read into it, with matching total, variable count and mean log-frequency (CalculateEntropy); writing and reading it back (CSV), or reading the sparse JSON form, gives the same multiset for any fragmentation of the I/O; examples of the sparse form that are no list of the data set's variables (whole numbers from 1 on) are skipped and all others kept. A file without the fields or whose data is no list gives no data set. A missing file, a failing read or a CSV row of another length ends in an error, never in a smaller data set, an endless loop, or a mixture with previous contents. The CSV reader beneath it (CsvParser, from a file or a string, any separator, with or without a header) returns every row with every field exactly - quoted fields, doubled quotes, separators and line ends inside quotes, any length - then reports the end each time it is asked again; it names the reason when it cannot read, and gives back all memory when destroyed.",
 ["inputs", "histories", "fault_sequences"],
 "Every multiset of records over any number of columns, every sequence of add, write, read and re-read, every pattern of short, interrupted or failing reads and writes.",
 "Data files are read by no test with I/O faults or repeated use of one object.",
 ["src/binary_data.cpp", "src/csvparser.c"], [("data", "record to count map", "src/binary_data.cpp")], [("BinaryData::ReadFile", "src/binary_data.cpp"), ("BinaryData::WriteFile", "src/binary_data.cpp"), ("BinaryData::ReadSparseDataJsonFile", "src/binary_data.cpp"), ("CsvParser", "src/csvparser.c")], ["BinaryData::data, data_size, variable_size"])
prop("C20", "Network files are read exactly or rejected",
 "Reading a UAI file yields exactly the declared variables, network type, scopes and tables, however the numbers are laid out over lines and however the reads are fragmented. A file that is missing, cut short, malformed (a scope of another length or with an unknown variable, a table that does not fit its scope, an entry that is no number), or whose reading fails ends in an error within bounded work, never in a network with missing or invented content or in an endless loop.",
 ["inputs", "fault_sequences", "crash_points"],
 "Every network (any table size, layout of table entries over lines, blank lines), every pattern of short or interrupted reads, every read error position and every truncation that removes at least one table entry.",
 "Tests read two well-formed files from disk.",
 ["src/uai_network.cpp"], [("network", "scopes and tables", "src/uai_network.cpp")], [("UaiNetwork::read_file", "src/uai_network.cpp")], ["UaiNetwork accessors, exit status, bounded processor time"])
prop("C21", "A compiled network times its partition is the product of its factors",
 "Compiling a network, by any of the compilation strategies and any collection frequency, gives a normalised PSDD and a log partition value such that PSDD(x) times partition equals the product of all factor entries for every assignment x over all variables of the network, all strategies agreeing; there is no PSDD and the partition is zero exactly when that product is zero for every assignment.",
 ["inputs", "histories", "schedules"],
 "Every network (no factor at all, constant factors, zero entries, a single factor, variables that are in no factor, and networks without any assignment of positive weight included), every factor order and scope order, every vtree in which each factor's variables form a chain (all vtrees the tool generates), every collection frequency of at least 1, all three strategies.",
 "The compiler is never executed by the test suite.",
 ["src/pgm_compiler.cpp", M, U], [("work queue", "PSDDs still to be multiplied, the only roots kept by the collector", "src/pgm_compiler.cpp")], [("compile_factor", "src/pgm_compiler.cpp"), ("compile_network, compile_network_with_vtree, compile_network_dc", "src/pgm_compiler.cpp")], ["PSDD and partition of each strategy"])
prop("C22", "Generated vtrees are valid for every network and any heuristic answer",
 "For every network, each vtree method returns a vtree whose leaves are exactly the network's variables, each once, and on which every factor can be compiled, whatever legal elimination order, tree decomposition or bipartition the external heuristic returns. Temporary files left over from earlier or crashed runs do not affect the result.",
 ["inputs", "schedules", "histories"],
 "Every network (without factors, disconnected, single variable, nested scopes, variables that are in no factor), every legal answer of the heuristic libraries, including unbalanced and adversarial ones, and repeated runs.",
 "vtree_from_uai_test is not part of the reliably passing tests because the heuristic libraries are absent; with them, each network would see one answer only.",
 ["src/minfill_vtree.cpp", "src/jointree_vtree.cpp", "src/hypergraph_decomposition_vtree.cpp"], [("heuristic answer", "elimination order, decomposition or partition chosen outside the library", "include/htd, include/kahypar")], [("MinFillVtree", "src/minfill_vtree.cpp"), ("JointreeVtree", "src/jointree_vtree.cpp"), ("HypergraphDecompositionVtree", "src/hypergraph_decomposition_vtree.cpp")], ["leaves of the returned vtree, compile_factor on it"])
prop("C23", "The inference tool answers its queries correctly or fails loudly",
 "Given a PSDD file, a vtree file and optionally a CNF evidence file, the command-line tool prints the MPE assignment with its probability and the marginals of the distribution conditioned on the evidence, or UNSATISFIED when the evidence excludes every model. With a PSDD file that is missing, cut short or unreadable, or an evidence file that is missing, whose reading fails, that has a line which is no clause or that (being satisfiable otherwise) names a variable the PSDD does not have, it ends with an error instead of an answer.",
 ["inputs", "fault_sequences", "histories"],
 "Every PSDD, vtree and evidence, every combination of query options, every pattern of short or interrupted I/O, every read error of either file and every truncation of the PSDD file.",
 "No test runs the tool.",
 ["psdd_inference_main.cpp", M, N, "src/cnf.cpp"], [("standard output", "printed answers", "psdd_inference_main.cpp")], [("main", "psdd_inference_main.cpp")], ["exit status and standard output of the tool run inside the simulator"])
prop("C24", "The network compiler tool writes files that reproduce the network",
 "Given a UAI file, the compiler tool writes a PSDD file and a vtree file which, read back together, represent the product of the network's factors divided by the partition value it prints; a vtree given by file is the one that is used. If the input cannot be read completely, no assignment has positive weight, or the PSDD cannot be written, it does not end successfully.",
 ["inputs", "fault_sequences", "crash_points"],
 "Every network, paths of any length, every vtree method (with any legal heuristic answer) or user vtree, every pattern of short or interrupted I/O, every read error on the input and write error on the PSDD output.",
 "The tool is never executed by the tests and cannot be linked without the heuristic libraries.",
 ["uai_compiler.cpp", "src/pgm_compiler.cpp", "src/uai_network.cpp", N], [("output files", "<input>.psdd and <input>.vtree", "uai_compiler.cpp")], [("main", "uai_compiler.cpp")], ["exit status, standard output and files left by the tool run inside the simulator"])
prop("C25", "Vtree operations build the right tree and leave their source reusable",
 "Copying (with or without renaming), projecting, listing and finding sub-vtrees return the tree or variables the arguments determine - same shape, projected shape without the dropped leaves, exact variable lists in order, the sub-vtree with exactly those variables or none. The source is unchanged (its data slots left clean) and usable for any further operation, also for building managers, in any order and repetition.",
 ["inputs", "histories", "schedules"],
 "Every vtree, variable set and renaming (projections keep at least one variable), every sequence of these operations on the same source interleaved with conversions and manager creation.",
 "vtree_test checks one projection; leftovers in the data slots of the source only show in later operations.",
 [N, M], [("vtree data slots", "temporary pointers to new nodes kept in the source", N + ":CopyVtree, ProjectVtree")], [("CopyVtree, ProjectVtree, SubVtreeByVariables, VariablesUnderVtree, LeftToRightLeafTraverse", N), ("GetPsddManagerFromVtree, GetPsddManagerFromSddVtree", M)], ["shape and leaves of the results and of the source"])
prop("C26", "Parameter arithmetic is exact up to rounding",
 "Sum, product, quotient and comparison of parameters agree with real arithmetic on the numbers they denote, including zero, up to rounding and the comparison resolution.",
 ["inputs"], "All pairs of non-negative parameters.",
 "Values are only tested indirectly.",
 ["src/psdd_parameter.cpp"], [], [("operator+, *, /, <, ==", "src/psdd_parameter.cpp")], ["PsddParameter::parameter"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
