#pragma once
#include <list>
#include <memory>
#include <unordered_map>
#include <vector>
#include "edge_directed_weighted.hpp"
#include "graph_node.hpp"
namespace ugly {
// The vertices are those with a node; an edge with an end that has no node takes no part.
template <typename... Ts> class Graph {
 public:
  Graph(std::list<std::weak_ptr<Edge>> edges, std::unordered_map<int, std::weak_ptr<GraphNode<Ts...>>> nodes) {
    for (auto &n : nodes) vertices_.push_back(n.first);
    for (auto &e : edges) if (auto p = e.lock()) if (nodes.count(p->getVertex1()) && nodes.count(p->getVertex2())) edges_.push_back(e);
  }
  std::vector<int> getVertices() const { return vertices_; }
  std::vector<std::weak_ptr<Edge>> getEdges() const { return edges_; }
 private:
  std::vector<int> vertices_; std::vector<std::weak_ptr<Edge>> edges_;
};
}
