// C32 - one answer in every build.  The program of one configuration: every operation of lib/ops.h with every argument set,
// each in a process of its own, answers written to a file (builds.py compiles it in every configuration and compares).
//@bounds quick: about 100 operations over all parts of the library and 20 that must be refused x 3 argument sets, in 9 translation units that include the whole library in different orders and repeatedly; 6 configurations in which every value of the compiler (g++, clang++), the optimisation (-O0 to -O3), assertions (on, off), the standard (C++17, C++20), vectorisation and the preset of local variables (pattern, zero, none) occurs; each executed with fresh heap memory left as it is, filled with 0x55 and filled with 0xAA
//@bounds thorough: the full product g++/clang++ x -O0..-O3 x assertions on/off x C++17/20 (32 configurations), preset and vectorisation rotating over them
//@model the answers of the configuration g++ -O0 with assertions
//@assume only inputs for which the operations are defined (what assertions refuse is C07, C15, C19 and others); optimisation levels that keep IEEE arithmetic (no -ffast-math)
//@parts ops.cpp 8
//@builds
#include <cstdio>
#include <cstring>
#include <exception>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "ops.h"
#include "MathUtils/thirdparty/linterp.h"
#include "MathUtils/MathUtilsBoost.h"
std::vector<OpT> OPS;
const std::function<void()> *userhook = nullptr;
static volatile char sink;
static void __attribute__((noinline)) dirty(int byte) { volatile char a[1 << 16]; for (size_t i = 0; i < sizeof a; ++i) a[i] = (char) byte; sink = a[77]; }
int main(int argc, char **argv) {
  if (argc < 3) return 3;
  int fill = atoi(argv[2]);
  Out *o = (Out *) mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  FILE *f = fopen(argv[1], "w");
  if (!f || o == MAP_FAILED) return 3;
  dirty(fill);
  allops();
  refusals();
  for (size_t i = 0; i < OPS.size(); ++i) for (int w = 0; w < 3; ++w) {
    o->n = 0; o->state = 0;
    fflush(f);
    pid_t p = fork();
    if (p == 0) {
      fclose(stdout); fclose(stderr);
      alarm(20);
      dirty(fill);
      try { OPS[i].f(w, *o); o->state = 1; } catch (...) { o->state = 2; }
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    fprintf(f, "%s: %s [%d]\t%d\t", OPS[i].part.c_str(), OPS[i].name.c_str(), w, WIFEXITED(st) && WEXITSTATUS(st) == 0 ? o->state : 100 + (WIFSIGNALED(st) ? WTERMSIG(st) : 0));
    for (unsigned k = 0; k < o->n && k < sched::MAXOUT; ++k) fprintf(f, "%.17g ", o->v[k]);
    fprintf(f, "\n");
  }
  fprintf(f, "END\n");
  fclose(f);
  return 0;
}
