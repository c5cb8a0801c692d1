#pragma once
#include <tuple>
namespace ugly {
template <typename... Ts> class GraphNode {
 public:
  GraphNode(Ts... v) : v_(v...) {}
 private:
  std::tuple<Ts...> v_;
};
}
