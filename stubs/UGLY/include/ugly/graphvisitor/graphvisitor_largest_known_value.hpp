#pragma once
#include "graphvisitor.hpp"
namespace ugly {
class GraphVisitorLargestKnownValue : public GraphVisitor {
  std::weak_ptr<Edge> next_() override { if (edges_.empty()) throw std::runtime_error("no edges left"); std::weak_ptr<Edge> best = edges_.front(); for (auto &e : edges_) if (e.lock()->getWeight() > best.lock()->getWeight()) best = e; return best; }
};
}
