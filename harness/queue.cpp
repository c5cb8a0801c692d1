// Event queue: order and conservation for every history of operations.
#include "sym.h"
#include "mythical/queue.hpp"
#include <vector>
#include <stdexcept>
using namespace mythical;
typedef std::pair<int, double> W;
static double when(int k) { return sym_real(("t" + std::to_string(k)).c_str(), 0, 1e9); }

// C10: walkers leave in the order of their times
HARNESS(C10_sort_then_pop) {
  sym_note("up to 5 walkers (thorough 7) with arbitrary, possibly equal, times in [0,1e9]; histories of up to 6 operations (thorough 8)");
  Queue q; int n = sym_pick("n", 0, TIER(5, 7));
  for (int i = 0; i < n; i++) q.add(W(i, when(i)));
  q.sort(); sym_check(q.isSorted(), "a sorted queue says so");
  sym_check((int)q.size() == n, "sorting keeps the number of walkers");
  double last = -1;
  for (int i = 0; i < n; i++) { W w = q.pop_current(); sym_check(w.second >= last, "after sorting, walkers leave in non-decreasing time order"); last = w.second; }
  sym_reach("end");
}
HARNESS(C10_ordered_insertion) {
  Queue q; int n = sym_pick("n", 1, TIER(5, 7));
  for (int i = 0; i < n; i++) q.sortedAdd(W(i, when(i)));
  for (int i = 0; i + 1 < n; i++) {
    const W &a = q.at(i), &b = q.at(i + 1);
    sym_check(a.second <= b.second, "ordered insertion into an ordered queue keeps it ordered");
    sym_check((a.second < b.second) | (a.first < b.first), "walkers with equal times keep the order in which they were inserted");
  }
  sym_reach("end");
}
// histories: the reported state, and what an ordered queue promises, hold after every operation
HARNESS(C10_history) {
  Queue q; std::vector<W> ref; bool ordered = true; int next = 0; int n = TIER(5, 7);
  for (int step = 0; step < n; step++) {
    int op = sym_pick("op", 0, ref.empty() ? 2 : 3);
    if (op == 0) { W w(next, when(next)); next++; q.add(w); ref.push_back(w); ordered = false; }
    else if (op == 1) { W w(next, when(next)); next++; q.sortedAdd(w); ref.push_back(w); }
    else if (op == 2) { q.sort(); ordered = true; }
    else {
      W w = q.pop_current(); size_t k = 0; while (k < ref.size() && ref[k].first != w.first) k++;
      sym_check(k < ref.size(), "a popped walker was in the queue"); sym_check(ref[k].second == w.second, "a popped walker has its own time");
      if (ordered) { bool least = true; for (W &x : ref) least = least & (w.second <= x.second); sym_check(least, "an ordered queue hands out a walker with the smallest time"); }
      ref.erase(ref.begin() + k);
    }
    if (q.isSorted()) { sym_reach("says sorted"); for (size_t i = 0; i + 1 < q.size(); i++) sym_check(q.at(i).second <= q.at(i + 1).second, "a queue that says it is sorted is sorted"); }
    else sym_reach("says unsorted");
    if (ordered) sym_check(q.isSorted(), "a queue that was sorted and only received ordered insertions still counts as sorted");
  }
}

HARNESS(C10_many) {
  // more walkers than the library sort handles by insertion: one time is free, ordered insertions follow
  int n = sym_pick("n", 0, 1) ? 33 : 17, how = sym_pick("how", 0, 1); double t = sym_real("t", 0, 40), v = sym_real("v", 0, 40); Queue q; for (int i = 0; i < n; i++) { W w(i, i == 5 ? t : (double)((i * 7) % n)); if (how) q.sortedAdd(w); else q.add(w); } if (!how) q.sort(); q.sortedAdd(W(n, v)); sym_check((int)q.size() == n + 1, "every walker is kept"); double last = -1;
  for (int i = 0; i <= n; i++) { W w = q.pop_current(); sym_check(w.second >= last, "many walkers leave in non-decreasing time order"); last = w.second; } sym_check(q.size() == 0, "nothing is left when all have left"); sym_reach("end");
}

// C11: nothing is lost, duplicated or altered
HARNESS(C11_contents) {
  sym_note("histories of up to 5 operations (thorough 7) over add, ordered insertion, sort, pop with arbitrary times; ids include equal ids and the extreme ints");
  Queue q; std::vector<W> ref; int next = 0; int n = TIER(5, 7); static const int ids[] = {7, 7, -1, 2147483647, -2147483647 - 1, 0, 3};
  sym_check(q.size() == 0, "a new queue is empty"); sym_check(q.isSorted(), "an empty queue counts as sorted");
  for (int step = 0; step < n; step++) {
    int op = sym_pick("op", 0, ref.empty() ? 2 : 3);
    if (op == 0 || op == 1) { W w(ids[next], when(next)); next++; if (op) q.sortedAdd(w); else q.add(w); ref.push_back(w); }
    else if (op == 2) q.sort();
    else {
      W f = q.at(0), w = q.pop_current(); sym_check(f.first == w.first & f.second == w.second, "pop takes the walker at the front");
      bool found = false; for (size_t k = 0; k < ref.size(); k++) if (!found && ref[k].first == w.first && ref[k].second == w.second) { ref.erase(ref.begin() + k); found = true; break; }
      sym_check(found, "a popped walker was put in, with the same id and time, and not yet taken out");
    }
    sym_check(q.size() == ref.size(), "the size counts the walkers put in minus the ones taken out");
  }
  // what is left is exactly what was put in and not taken out
  std::vector<W> rest = ref;
  for (size_t i = 0; i < q.size(); i++) { bool found = false; for (size_t k = 0; k < rest.size(); k++) if (rest[k].first == q.at(i).first && rest[k].second == q.at(i).second) { rest.erase(rest.begin() + k); found = true; break; } sym_check(found, "every walker in the queue was put in once"); }
  sym_check(rest.empty(), "no walker disappears from the queue");
  sym_reach("end");
}
HARNESS(C11_bounds) {
  Queue q; int n = sym_pick("n", 0, 4); for (int i = 0; i < n; i++) q.add(W(i, when(i)));
  int k = sym_int("k", -2147483647 - 1, 2147483647);
  try { const W &w = q.at(k); sym_check((k >= 0) & (k < n), "reading past the queue is refused"); sym_check(w.first == k, "positions are in insertion order before sorting"); sym_reach("inside"); }
  catch (std::out_of_range &) { sym_check((k < 0) | (k >= n), "every position inside the queue can be read"); sym_reach("outside"); }
}
// larger queues: the library sort switches algorithm above 16 elements; times take a few values, keys symbolic
HARNESS(C11_many) {
  Queue q; int n = 18; double t = sym_real("t", 0, 18);
  for (int i = 0; i < n; i++) q.add(W(i, i == 5 ? t : (double)((i * 7) % n)));
  int sorted = sym_pick("sorted", 0, 1); if (sorted) q.sort(); std::vector<int> seen(n, 0); double last = -1;
  for (int i = 0; i < n; i++) { W f = q.at(0), w = q.pop_current(); sym_check(f.first == w.first & f.second == w.second, "pop takes the walker at the front"); sym_check((w.second >= last) | !sorted, "after sorting, walkers leave in non-decreasing time order"); last = w.second; seen[w.first]++; }
  for (int i = 0; i < n; i++) sym_check(seen[i] == 1, "every walker leaves once");
  sym_reach("end");
}
