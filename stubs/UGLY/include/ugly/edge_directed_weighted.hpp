#pragma once
#include "edge.hpp"
namespace ugly {
class EdgeDirectedWeighted : public Edge {
 public:
  EdgeDirectedWeighted(int from, int to, double w) : Edge(from, to), w_(w) {}
  bool directional() const override { return true; }
  double getWeight() const override { return w_; }
  void setWeight(double w) { w_ = w; }
 private:
  double w_;
};
}
