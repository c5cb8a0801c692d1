// Stand-in for UGLY (the graph library MythiCaL's coarse-graining uses; its submodule is not present in this tree).
#pragma once
#include <cstddef>
#include <functional>
#include <utility>
namespace ugly { namespace hash_functions {
struct hash { template <class A, class B> std::size_t operator()(const std::pair<A, B> &p) const { return std::hash<A>()(p.first) * 31u + std::hash<B>()(p.second); } };
} }
