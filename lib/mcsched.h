// Controlled scheduler for stateless model checking of real code (see mcsched.cpp).
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
namespace sched {
enum { MAXT = 4, MAXOUT = 4096 };
// answers of one thread, in memory shared with the exploring process
struct Out {
  uint32_t n; int32_t state;         // state: 0 not finished, 1 finished, 2 threw
  double v[MAXOUT];
  void put(double d) { if (n < MAXOUT) v[n] = d; ++n; }
};
typedef void (*Body)(int thread, void *ctx, Out &out);
struct Result { int ending = 0; std::vector<double> v[MAXT]; int state[MAXT] = {0, 0, 0, 0}; std::string what; };   // ending: 0 ok, else why it did not end normally
struct Stats { uint64_t schedules = 0, points = 0, restarts = 0, conflicts = 0, maxpoints = 0, accesses = 0; bool capped = false; int bound = 0; };
// one execution of the threads in mask, one after the other, without scheduling points
Result Alone(unsigned mask, Body b, void *ctx);
// every schedule of threads 0..n-1 with at most `bound` preemptions, at accesses to addresses that one thread writes and
// another one touches; calls ok(result) for each; stops when ok returns false (the schedule is then in *bad)
template<class OK> bool Explore(int n, Body b, void *ctx, int bound, uint64_t cap, OK ok, Stats &st, std::string *bad);
struct Judge { virtual bool ok(const Result &) = 0; virtual ~Judge() {} };
bool ExploreImpl(int n, Body b, void *ctx, int bound, uint64_t cap, Judge &j, Stats &st, std::string *bad);
template<class OK> bool Explore(int n, Body b, void *ctx, int bound, uint64_t cap, OK ok, Stats &st, std::string *bad) {
  struct J : Judge { OK &f; explicit J(OK &g) : f(g) {} bool ok(const Result &r) override { return f(r); } } j(ok);
  return ExploreImpl(n, b, ctx, bound, cap, j, st, bad);
}
}
#endif
