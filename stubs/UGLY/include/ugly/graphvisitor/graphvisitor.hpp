#pragma once
#include <list>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <vector>
#include "ugly/edge_directed_weighted.hpp"
namespace ugly {
// A visitor holds the explored vertices and the edges that lead from them to vertices not yet explored; the derived
// class says which of these is taken next.
class GraphVisitor {
 public:
  virtual ~GraphVisitor() {}
  void setStartingVertex(int v) { explored_.clear(); edges_.clear(); start_ = v; explored_[v] = 0.0; order_.assign(1, v); }
  bool edgeCanBeAdded(std::weak_ptr<Edge> e) { auto p = e.lock(); return p && source_(*p) >= 0; }
  void addEdge(std::weak_ptr<Edge> e) { auto p = e.lock(); if (!p || source_(*p) < 0) throw std::invalid_argument("the edge does not lead from an explored to an unexplored vertex"); edges_.push_back(e); }
  void addEdges(std::vector<std::weak_ptr<Edge>> es) { for (auto &e : es) addEdge(e); }
  bool allEdgesExplored() { prune_(); return edges_.empty(); }
  template <class E> std::weak_ptr<E> getNextEdge() { prune_(); return std::static_pointer_cast<E>(next_().lock()); }
  int chooseTerminalVertex(std::weak_ptr<Edge> e) { auto p = e.lock(); int s = p ? source_(*p) : -1; if (s < 0) throw std::runtime_error("no unexplored vertex at the end of the edge"); return s == 0 ? p->getVertex2() : p->getVertex1(); }
  int chooseSourceVertex(std::weak_ptr<Edge> e) { auto p = e.lock(); int s = p ? source_(*p) : -1; if (s < 0) throw std::runtime_error("no unexplored vertex at the end of the edge"); return s == 0 ? p->getVertex1() : p->getVertex2(); }
  void exploreEdge(std::weak_ptr<Edge> e) { int s = chooseSourceVertex(e), t = chooseTerminalVertex(e); explored_[t] = explored_[s] + e.lock()->getWeight(); order_.push_back(t); prune_(); }
  bool vertexExplored(int v) { return explored_.count(v) != 0; }
  std::size_t countExploredVertices() { return explored_.size(); }
  std::vector<int> getExploredVertices() { return order_; }
  double getDistanceOfVertex(int v) { return explored_.at(v); }
 protected:
  virtual std::weak_ptr<Edge> next_() = 0;
  // 0: from vertex 1 (explored) to vertex 2 (not explored); 1: the other way, undirected edges only; -1: neither
  int source_(const Edge &e) { bool a = explored_.count(e.getVertex1()) != 0, b = explored_.count(e.getVertex2()) != 0; if (a && !b) return 0; if (b && !a && !e.directional()) return 1; return -1; }
  void prune_() { for (auto i = edges_.begin(); i != edges_.end();) { auto p = i->lock(); if (p && source_(*p) >= 0) ++i; else i = edges_.erase(i); } }
  int start_ = 0; std::map<int, double> explored_; std::vector<int> order_; std::list<std::weak_ptr<Edge>> edges_;
};
}
