#pragma once
#include "graphvisitor.hpp"
namespace ugly {
class GraphVisitorSmallestKnownValue : public GraphVisitor {
  std::weak_ptr<Edge> next_() override { if (edges_.empty()) throw std::runtime_error("no edges left"); auto val = [this](std::weak_ptr<Edge> e) { return explored_[chooseSourceVertex(e)] + e.lock()->getWeight(); }; std::weak_ptr<Edge> best = edges_.front(); for (auto &e : edges_) if (val(e) < val(best)) best = e; return best; }
};
}
