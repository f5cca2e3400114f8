// Stub of libhtd (the library is not part of the repository copy): the interface this code base uses, answering with
// seeded legal elimination orders and tree decompositions instead of heuristically good ones.
#pragma once
#include <algorithm>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iostream>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#define HTD_UNUSED(x) (void)(x);
namespace sim { uint64_t heur_next(); inline uint64_t heur_below(uint64_t n) { return n ? heur_next() % n : 0; } }
namespace htd {
typedef std::size_t vertex_t;
typedef std::size_t index_t;
typedef std::size_t id_t;
namespace Id { const id_t FIRST = 1; }
namespace Vertex { const vertex_t UNKNOWN = 0; const vertex_t FIRST = 1; }
class LibraryInstance;
class IMultiHypergraph {
 public:
  virtual ~IMultiHypergraph() {}
  std::size_t vertexCount() const { return n_; }
  std::size_t edgeCount() const { return e_.size(); }
  std::size_t n_ = 0;
  std::vector<std::vector<vertex_t>> e_;
};
class IMutableMultiHypergraph : public IMultiHypergraph {
 public:
  vertex_t addVertex() { return ++n_; }
  vertex_t addVertices(std::size_t k) { n_ += k; return n_ - k + 1; }
  id_t addEdge(const std::vector<vertex_t> &v) {
    for (vertex_t x : v) if (x < 1 || x > n_) throw std::logic_error("htd: addEdge: unknown vertex");
    e_.push_back(v); return e_.size(); }
  id_t addEdge(vertex_t a, vertex_t b) { return addEdge(std::vector<vertex_t>{a, b}); }
};
class MultiHypergraph : public IMutableMultiHypergraph { public: MultiHypergraph(const LibraryInstance *) {} };
class IVertexOrdering {
 public:
  std::vector<vertex_t> s_;
  virtual ~IVertexOrdering() {}
  const std::vector<vertex_t> &sequence() const { return s_; }
};
std::vector<vertex_t> random_order(const IMultiHypergraph &g);
class IOrderingAlgorithm { public: virtual ~IOrderingAlgorithm() {}
  IVertexOrdering *computeOrdering(const IMultiHypergraph &g) const { auto *o = new IVertexOrdering(); o->s_ = random_order(g); return o; } };
class MinFillOrderingAlgorithm : public IOrderingAlgorithm { public: MinFillOrderingAlgorithm(const LibraryInstance *) {} };
class MinDegreeOrderingAlgorithm : public IOrderingAlgorithm { public: MinDegreeOrderingAlgorithm(const LibraryInstance *) {} };
class ITreeDecomposition {
 public:
  struct Node { vertex_t parent = 0; std::vector<vertex_t> kids, bag; };
  std::vector<Node> t_{1};       // 1-based
  vertex_t root_ = 1;
  virtual ~ITreeDecomposition() {}
  std::size_t vertexCount() const { return t_.size() - 1; }
  vertex_t root() const { return root_; }
  vertex_t parent(vertex_t v) const { return t_.at(v).parent; }
  bool isRoot(vertex_t v) const { return v == root_; }
  bool isLeaf(vertex_t v) const { return t_.at(v).kids.empty(); }
  const std::vector<vertex_t> &children(vertex_t v) const { return t_.at(v).kids; }
  std::size_t childCount(vertex_t v) const { return t_.at(v).kids.size(); }
  std::size_t maximumBagSize() const { std::size_t m = 0; for (auto &x : t_) m = std::max(m, x.bag.size()); return m; }
  std::size_t bagSize(vertex_t v) const { return bagContent(v).size(); }
  std::size_t height() const { std::function<std::size_t(vertex_t)> h = [&](vertex_t v) { std::size_t m = 0; for (auto k : t_[v].kids) m = std::max(m, 1 + h(k)); return m; }; return h(root_); }
  const std::vector<vertex_t> &bagContent(vertex_t v) const { if (v < 1 || v >= t_.size()) throw std::logic_error("htd: bagContent: unknown vertex"); return t_[v].bag; }
};
class FitnessEvaluation {
 public:
  std::vector<double> l_;
  FitnessEvaluation(std::size_t n, ...) { va_list a; va_start(a, n); for (std::size_t i = 0; i < n; i++) l_.push_back(va_arg(a, double)); va_end(a); }
  double at(index_t i) const { return l_.at(i); }
  std::size_t levels() const { return l_.size(); }
};
class ITreeDecompositionFitnessFunction { public: virtual ~ITreeDecompositionFitnessFunction() {}
  virtual FitnessEvaluation *fitness(const IMultiHypergraph &, const ITreeDecomposition &) const = 0;
  virtual ITreeDecompositionFitnessFunction *clone(void) const = 0; };
class IVertexSelectionStrategy { public: virtual ~IVertexSelectionStrategy() {} };
class RandomVertexSelectionStrategy : public IVertexSelectionStrategy { public: RandomVertexSelectionStrategy(std::size_t) {} };
class ITreeDecompositionManipulationOperation { public: virtual ~ITreeDecompositionManipulationOperation() {} };
class NormalizationOperation : public ITreeDecompositionManipulationOperation { public: NormalizationOperation(const LibraryInstance *, ...) {} };
class TreeDecompositionOptimizationOperation : public ITreeDecompositionManipulationOperation {
  std::unique_ptr<ITreeDecompositionFitnessFunction> f_; std::unique_ptr<IVertexSelectionStrategy> s_; std::vector<std::unique_ptr<ITreeDecompositionManipulationOperation>> o_;
 public:
  TreeDecompositionOptimizationOperation(const LibraryInstance *, ITreeDecompositionFitnessFunction *f) : f_(f) {}
  void setManagementInstance(const LibraryInstance *) {}
  void setVertexSelectionStrategy(IVertexSelectionStrategy *s) { s_.reset(s); }
  void addManipulationOperation(ITreeDecompositionManipulationOperation *o) { o_.emplace_back(o); }
};
class ITreeDecompositionAlgorithm {
  std::vector<std::unique_ptr<ITreeDecompositionManipulationOperation>> o_;
 public:
  virtual ~ITreeDecompositionAlgorithm() {}
  void addManipulationOperation(ITreeDecompositionManipulationOperation *o) { o_.emplace_back(o); }
};
ITreeDecomposition *random_decomposition(const IMultiHypergraph &g);
class IterativeImprovementTreeDecompositionAlgorithm {
  std::unique_ptr<ITreeDecompositionAlgorithm> a_; std::unique_ptr<ITreeDecompositionFitnessFunction> f_;
 public:
  IterativeImprovementTreeDecompositionAlgorithm(const LibraryInstance *, ITreeDecompositionAlgorithm *a, ITreeDecompositionFitnessFunction *f) : a_(a), f_(f) {}
  void setIterationCount(std::size_t) {}
  void setNonImprovementLimit(std::size_t) {}
  ITreeDecomposition *computeDecomposition(const IMultiHypergraph &g) { return computeDecomposition(g, [](const IMultiHypergraph &, const ITreeDecomposition &, const FitnessEvaluation &) {}); }
  ITreeDecomposition *computeDecomposition(const IMultiHypergraph &g, const std::function<void(const IMultiHypergraph &, const ITreeDecomposition &, const FitnessEvaluation &)> &cb) {
    ITreeDecomposition *d = nullptr; std::size_t k = 1 + sim::heur_below(3);
    for (std::size_t i = 0; i < k; i++) { delete d; d = random_decomposition(g); std::unique_ptr<FitnessEvaluation> e(f_->fitness(g, *d)); cb(g, *d, *e); }
    return d;
  }
};
class PostOrderTreeTraversal {
 public:
  void traverse(const ITreeDecomposition &d, const std::function<void(vertex_t, vertex_t, std::size_t)> &f) const {
    std::function<void(vertex_t, std::size_t)> go = [&](vertex_t v, std::size_t k) { for (auto c : d.children(v)) go(c, k + 1); f(v, d.parent(v), k); };
    go(d.root(), 0);
  }
};
template <class T, class I> class FactoryOf { std::unique_ptr<I> t_; public: I *createInstance() const { return new T(); } void setConstructionTemplate(I *t) { t_.reset(t); } };
class DefaultHypergraph : public IMutableMultiHypergraph {};
class DefaultTDAlgorithm : public ITreeDecompositionAlgorithm {};
class DefaultOrdering : public IOrderingAlgorithm {};
class LibraryInstance {
  FactoryOf<DefaultHypergraph, IMutableMultiHypergraph> g_; FactoryOf<DefaultOrdering, IOrderingAlgorithm> o_; FactoryOf<DefaultTDAlgorithm, ITreeDecompositionAlgorithm> t_;
 public:
  FactoryOf<DefaultHypergraph, IMutableMultiHypergraph> &multiHypergraphFactory() { return g_; }
  FactoryOf<DefaultOrdering, IOrderingAlgorithm> &orderingAlgorithmFactory() { return o_; }
  FactoryOf<DefaultTDAlgorithm, ITreeDecompositionAlgorithm> &treeDecompositionAlgorithmFactory() { return t_; }
};
inline LibraryInstance *createManagementInstance(id_t) { return new LibraryInstance(); }
}  // namespace htd
