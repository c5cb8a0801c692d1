#pragma once
#include <limits>
#include <utility>
#include "graph.hpp"
#include "pair_hash.hpp"
namespace ugly { namespace graphalgorithms {
// Length of the shortest directed path for every ordered pair of vertices (infinite where there is none).
template <typename... Ts> std::unordered_map<std::pair<int, int>, double, hash_functions::hash> maxMinimumDistanceBetweenEveryVertex(Graph<Ts...> &g) {
  std::vector<int> v = g.getVertices(); const double none = -1.0; std::size_t n = v.size(); std::vector<std::vector<double>> d(n, std::vector<double>(n, none));
  for (auto &we : g.getEdges()) { auto e = we.lock(); if (!e) continue; std::size_t a = 0, b = 0; while (v[a] != e->getVertex1()) a++; while (v[b] != e->getVertex2()) b++; if (a == b) continue; double w = e->getWeight(); if (d[a][b] == none || w < d[a][b]) d[a][b] = w; if (!e->directional() && (d[b][a] == none || w < d[b][a])) d[b][a] = w; }
  for (std::size_t k = 0; k < n; k++) for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) { if (i == j || i == k || j == k || d[i][k] == none || d[k][j] == none) continue; double w = d[i][k] + d[k][j]; if (d[i][j] == none || w < d[i][j]) d[i][j] = w; }
  std::unordered_map<std::pair<int, int>, double, hash_functions::hash> r;
  for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) if (i != j) r[std::make_pair(v[i], v[j])] = d[i][j] == none ? std::numeric_limits<double>::max() : d[i][j];
  return r;
}
} }
