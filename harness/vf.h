// Exploration runtime shared by all harnesses: forked workers over a finite,
// completely enumerated case space; crash/hang containment; replay before
// report; distinct-state counting; evidence and replay files.
#ifndef VF_H
#define VF_H
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vf {

// What one execution reports back.
struct Rep
{
  bool failed = false;
  std::string cls;          // identifies the specific failure (known-findings key)
  std::string msg;          // what was expected / observed
  uint64_t steps = 0;       // transitions executed on the real code
  bool nontrivial = false;
  uint64_t trail = 1469598103934665603ull; // hash over all observations, in order
  bool verbose = false;     // set while replaying: the case prints its history
  std::string text;         // readable history (filled when verbose)
  const char *note = "";    // circumstance that becomes part of the class of a leak
  void fail (const std::string &cls_, const std::string &m)
  {
    if (failed) return;
    failed = true; cls = cls_; msg = m;
  }
  void say (const std::string &s) { if (verbose) { text += s; text += '\n'; } }
  void state (const std::string &canon); // counts distinct states
  void outcome (const std::string &canon);
};

struct Family
{
  std::string name;
  uint64_t n;                                        // number of cases
  std::function<void (uint64_t, Rep &)> exec;        // run case i
  std::function<std::string (uint64_t)> describe;    // readable case i
};

// keeps one case in k of a family
inline void thin (Family &f, uint64_t k, const char *what)
{
  auto x = f.exec; auto d = f.describe; f.n = (f.n + k - 1) / k; f.name += " (every " + std::to_string (k) + (k == 3 ? "rd " : "th ") + what + ")";
  f.exec = [=] (uint64_t i, Rep &r) { x (i * k, r); }; f.describe = [=] (uint64_t i) { return d (i * k); };
}
struct Spec
{
  std::string property;
  std::string level;                 // model_checking | exploration
  std::string rule;                  // how cases are made, what is non-trivial
  std::vector<std::string> assumptions;
  std::vector<Family> families;
  unsigned case_cpu_ms = 4000;       // CPU limit of one case
  std::vector<std::pair<std::string,std::string>> notes; // extra evidence fields (strings)
};

// Runs everything; returns the process exit status (0 or 1; 2 on harness trouble).
int run (Spec &spec, int argc, char **argv);

bool thorough ();                    // VERIF_TIER=thorough
unsigned seed ();
std::string scratch ();              // per-worker scratch directory (removed at exit)
void write_file (const std::string &path, const std::string &text);
std::string fmt (const char *f, ...) __attribute__ ((format (printf, 1, 2)));
uint64_t hash (const std::string &s);

// Address order owned by the harness (no-op under ASan).
void arena_begin (bool descending);  // from now on, operator new bumps up/down
void arena_end ();                   // back to malloc

// Mixed-radix decoding of a case index.
struct Dec
{
  uint64_t v;
  explicit Dec (uint64_t x) : v (x) {}
  uint64_t next (uint64_t radix) { uint64_t r = v % radix; v /= radix; return r; }
};
inline uint64_t ipow (uint64_t b, unsigned e) { uint64_t r = 1; while (e--) r *= b; return r; }

}
#endif
