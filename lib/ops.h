// The operations of the library that C31 and C32 execute: one table over all parts of it (harness/ops.cpp, in several
// translation units).  An operation takes the number of an argument set and writes its answers.
#ifndef VERIF_OPS_H
#define VERIF_OPS_H
#include <functional>
#include <string>
#include <vector>
#include "mcsched.h"
using sched::Out;
struct OpT { std::string part, name; std::function<void(int, Out &)> f; };
extern std::vector<OpT> OPS;
extern const std::function<void()> *userhook;        // while set, user functions run another operation first (nested use)
void ops0(); void ops1(); void ops2(); void ops3(); void ops4(); void ops5(); void ops6();
void refusals();                                      // calls to be refused
inline void allops() { ops0(); ops1(); ops2(); ops3(); ops4(); ops5(); ops6(); }
// deterministic, aperiodic values (mc::gen)
inline double opgen(int i) {
  unsigned long long x = (unsigned long long) (i + 1) * 0x9E3779B97F4A7C15ull;
  x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29;
  return (double) (long long) ((x >> 40) & 0xFFF) / 512.0 - 4.0;
}
#endif
