#include "vf.h"

#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <map>
#include <set>
#include <new>
#include <time.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <glib.h>

#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#endif

// ---------------------------------------------------------------- arena
// Objects and events get addresses in an order the harness chooses (sets of
// pointers are traversed in it). Under AddressSanitizer a block is surrounded
// by poisoned memory, and stays poisoned once deleted.
static char *ar_base = nullptr;
static size_t ar_size = 0, ar_lo = 0, ar_hi = 0, ar_live = 0;
static bool ar_on = false, ar_desc = false;
static int fill_byte = -1;
static bool live_on = false;
#ifdef VF_ASAN
extern "C" {
size_t __sanitizer_get_current_allocated_bytes (void);
int __sanitizer_install_malloc_and_free_hooks (void (*) (const volatile void *, size_t), void (*) (const volatile void *));
size_t __asan_get_alloc_stack (void *, void **, size_t, int *);
void __sanitizer_symbolize_pc (void *, const char *, char *, size_t);
void __asan_poison_memory_region (void const volatile *, size_t);
void __asan_unpoison_memory_region (void const volatile *, size_t);
}
static const size_t RED = 32;
static char *const AR_AT = (char *) 0x300000000000;
struct Head { size_t n; uint64_t magic; };
static void on_malloc (const volatile void *p, size_t n);
static void on_free (const volatile void *p);
static void alloc_stack (void *p);
#else
static const size_t RED = 0;
static char *const AR_AT = (char *) 0x100000000000;
#endif
static inline bool in_arena (void *p) { return ar_base && (char *) p >= ar_base && (char *) p < ar_base + ar_size; }
void *operator new (size_t n)
{
  if (ar_on && n >= 96) // objects and events; small nodes do not matter
    {
      size_t u = n;
      n = ((n + 15) & ~(size_t) 15) + 2 * RED;
      if (ar_lo + n <= ar_hi)
        {
          char *p;
          if (ar_desc) { ar_hi -= n; p = ar_base + ar_hi; }
          else { p = ar_base + ar_lo; ar_lo += n; }
#ifdef VF_ASAN
          __asan_unpoison_memory_region (p, n);
          Head *h = (Head *) p; h->n = u; h->magic = 0x5eed5eed5eed5eedull;
          __asan_poison_memory_region (p, RED);
          __asan_poison_memory_region (p + RED + u, n - RED - u);
          p += RED;
          if (fill_byte >= 0) memset (p, fill_byte, u);
          ar_live += u;
          if (live_on) { on_malloc (p, 0); alloc_stack (p); }
#endif
          return p;
        }
    }
  void *p = malloc (n ? n : 1);
  if (!p) abort ();
  return p;
}
void *operator new[] (size_t n) { return operator new (n); }
void operator delete (void *p) noexcept
{
  if (!p) return;
  if (!in_arena (p)) { free (p); return; }
#ifdef VF_ASAN
  Head *h = (Head *) ((char *) p - RED);
  __asan_unpoison_memory_region (h, sizeof *h);
  if (h->magic != 0x5eed5eed5eed5eedull) { fprintf (stderr, "ERROR: AddressSanitizer: object deleted twice\n"); abort (); }
  h->magic = 0; ar_live -= h->n;
  size_t n = h->n;
  __asan_poison_memory_region (h, sizeof *h);
  __asan_poison_memory_region (p, n);
  if (live_on) on_free (p);
#endif
}
void operator delete[] (void *p) noexcept { operator delete (p); }
void operator delete (void *p, size_t) noexcept { operator delete (p); }
void operator delete[] (void *p, size_t) noexcept { operator delete (p); }

namespace vf {

void arena_begin (bool desc)
{
  if (!ar_base)
    {
      ar_size = (size_t) 4 << 30;
      ar_base = (char *) mmap (AR_AT, ar_size, PROT_READ | PROT_WRITE,
                               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (ar_base == MAP_FAILED) { perror ("mmap"); _exit (3); }
      ar_lo = 0; ar_hi = ar_size;
    }
  ar_desc = desc; ar_on = true;
}
void arena_end () { ar_on = false; }
static size_t arena_used () { return ar_base ? ar_lo + (ar_size - ar_hi) : 0; }

std::string fmt (const char *f, ...)
{
  char buf[4096]; va_list ap; va_start (ap, f);
  int n = vsnprintf (buf, sizeof buf, f, ap); va_end (ap);
  if (n < (int) sizeof buf) return buf;
  std::string s (n + 1, 0); va_start (ap, f); vsnprintf (&s[0], n + 1, f, ap); va_end (ap);
  s.resize (n); return s;
}
uint64_t hash (const std::string &s)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
  return h ? h : 1;
}
bool thorough () { const char *t = getenv ("VERIF_TIER"); return t && !strcmp (t, "thorough"); }
unsigned seed () { const char *t = getenv ("VERIF_SEED"); return t ? atoi (t) : 1; }

void write_file (const std::string &path, const std::string &text)
{
  int fd = open (path.c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || write (fd, text.data (), text.size ()) != (ssize_t) text.size ()) { perror (path.c_str ()); _exit (3); }
  close (fd);
}

static std::string g_scratch_root;
static std::string g_scratch;
std::string scratch ()
{
  if (g_scratch.empty ())
    {
      g_scratch = g_scratch_root + fmt ("/w%d", (int) getpid ());
      mkdir (g_scratch.c_str (), 0755);
    }
  return g_scratch;
}
static void rmtree (const std::string &d)
{
  DIR *dp = opendir (d.c_str ());
  if (!dp) return;
  while (dirent *e = readdir (dp))
    {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string p = d + "/" + n;
      struct stat st;
      if (lstat (p.c_str (), &st) == 0 && S_ISDIR (st.st_mode)) rmtree (p); else unlink (p.c_str ());
    }
  closedir (dp);
  rmdir (d.c_str ());
}

// ---------------------------------------------------------------- shared state
static const unsigned NW = 8;
static const size_t TAB = (size_t) 1 << 23;     // distinct-state table
static const size_t OTAB = (size_t) 1 << 20;    // distinct-outcome table
static const unsigned MAXV = 400;
struct VRec { uint64_t idx; unsigned kind; unsigned len; char data[3000]; }; // cls\0msg
struct Slot { std::atomic<uint64_t> cur, end; std::atomic<int> busy; std::atomic<uint64_t> ticks; };
struct Shared
{
  std::atomic<uint64_t> next, done, steps, nontriv, nstates, noutcomes, failures, tabfull;
  std::atomic<unsigned> nv;
  Slot slot[NW];
  std::atomic<uint64_t> tab[TAB];
  std::atomic<uint64_t> otab[OTAB];
  VRec v[MAXV];
};
static Shared *S;

static bool insert (std::atomic<uint64_t> *t, size_t n, uint64_t h, std::atomic<uint64_t> &cnt)
{
  size_t i = h & (n - 1);
  for (unsigned k = 0; k < 256; k++)
    {
      uint64_t x = t[i].load (std::memory_order_relaxed);
      if (x == h) return false;
      if (x == 0)
        {
          uint64_t z = 0;
          if (t[i].compare_exchange_strong (z, h)) { cnt++; return true; }
          if (z == h) return false;
        }
      i = (i + 1) & (n - 1);
    }
  S->tabfull++;
  return false;
}
void Rep::state (const std::string &c)
{
  uint64_t h = hash (c);
  trail = (trail ^ h) * 1099511628211ull;
  if (S) insert (S->tab, TAB, h, S->nstates);
}
void Rep::outcome (const std::string &c) { if (S) insert (S->otab, OTAB, hash (c), S->noutcomes); }

static Spec *SP;
static uint64_t total;
static bool locate (uint64_t g, Family **f, uint64_t *i)
{
  for (auto &fam : SP->families)
    {
      if (g < fam.n) { *f = &fam; *i = g; return true; }
      g -= fam.n;
    }
  return false;
}
static void record (uint64_t idx, unsigned kind, const std::string &cls, const std::string &msg)
{
  S->failures++;
  static std::map<std::string, unsigned> seen; // leave room for other classes
  if (kind == 0 && ++seen[cls] > 20) return;
  unsigned k = S->nv++;
  if (k >= MAXV) { S->nv--; return; }
  VRec &r = S->v[k];
  r.idx = idx; r.kind = kind;
  std::string s = cls.substr (0, 400); s += '\0'; s += msg.substr (0, 2500);
  r.len = s.size ();
  memcpy (r.data, s.data (), s.size ());
}
static void set_cpu_timer (unsigned ms)
{
  struct itimerval it; memset (&it, 0, sizeof it);
  it.it_value.tv_sec = ms / 1000; it.it_value.tv_usec = (ms % 1000) * 1000;
  setitimer (ITIMER_PROF, &it, nullptr);
}
// ---------------------------------------------------------------- memory mode
// (asan build) The case is executed again and again in one process with
// allocations filled with different bytes: what it observes may not depend on
// the filling, and no execution may leave more memory allocated than it found.
#ifdef VF_ASAN
}
static const size_t LT = 1 << 21;
struct Live { void *p; size_t n; void *pc[16]; };
static Live *live_tab;
static size_t live_slot (const void *p) { uint64_t h = (uint64_t) p * 0x9E3779B97F4A7C15ull; return h >> (64 - 21); }
static Live *live_find (const void *p, bool add)
{
  size_t k = live_slot (p), gone = LT;
  for (unsigned t = 0; t < 4096; t++, k = (k + 1) % LT)
    {
      if (live_tab[k].p == p) return &live_tab[k];
      if (live_tab[k].p == (void *) 1) { if (gone == LT) gone = k; continue; }
      if (!live_tab[k].p) { if (!add) return nullptr; return &live_tab[gone != LT ? gone : k]; }
    }
  return nullptr;
}
static void on_malloc (const volatile void *vp, size_t n)
{
  void *p = (void *) vp;
  if (!p) return;
  if (fill_byte >= 0 && n && n <= 65536) memset (p, fill_byte, n);
  if (!live_on) return;
  if (Live *l = live_find (p, true)) { l->p = p; l->n = n; l->pc[0] = nullptr; }
}
static void on_free (const volatile void *vp)
{
  if (!live_on || !vp) return;
  if (Live *l = live_find ((void *) vp, false)) l->p = (void *) 1;
}
static void alloc_stack (void *p)
{
  Live *l = live_find (p, false);
  if (!l) return;
  void **fp = (void **) __builtin_frame_address (0);
  unsigned n = 0;
  for (; n < 15 && fp && fp[0] > (void *) fp && (char *) fp[0] < (char *) fp + 100000; fp = (void **) fp[0]) l->pc[n++] = (char *) fp[1] - 1;
  l->pc[n] = nullptr;
}
namespace vf {
static std::string stack_of (const Live &l, std::string *top)
{
  void *pc[40]; int tid; size_t n = 0;
  if (in_arena (l.p)) while (n < 16 && l.pc[n]) { pc[n] = l.pc[n]; n++; }
  else n = __asan_get_alloc_stack (l.p, pc, 40, &tid);
  std::string s;
  for (size_t k = 0; k < n; k++)
    {
      char b[512]; __sanitizer_symbolize_pc (pc[k], "%f %S", b, sizeof b);
      std::string l = b;
      if (l.find ("vf::") == 0 || l.find ("main ") == 0) break;
      s += "      " + l.substr (0, 200) + "\n";
      if (top->empty () && (l.find ("ginga::") == 0 || l.find ("/lib/") != std::string::npos)) *top = l.substr (0, l.find ('('));
    }
  return s;
}
static void leak_report (Family *f, uint64_t i, Rep &rep, size_t bytes)
{
  if (!live_tab) live_tab = (Live *) mmap (nullptr, LT * sizeof (Live), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  memset (live_tab, 0, LT * sizeof (Live));
  live_on = true;
  const char *note0 = "";
  { Rep r; f->exec (i, r); note0 = r.note; }
  live_on = false;
  std::string note = note0;
  // blocks that no other remaining block points to come first and name the leak
  std::vector<Live> all;
  for (size_t k = 0; k < LT; k++) if ((size_t) live_tab[k].p > 1) all.push_back (live_tab[k]);
  std::set<void *> held;
  for (auto &l : all) if (in_arena (l.p)) { Head *h = (Head *) ((char *) l.p - RED); __asan_unpoison_memory_region (h, sizeof *h); l.n = h->n; }
  for (auto &l : all) for (size_t o = 0; o + 8 <= l.n; o += 8) held.insert (*(void **) ((char *) l.p + o));
  std::string text, first; unsigned n = 0; bool lua = !all.empty ();
  if (note != "") for (auto &l : all) { std::string t, st = stack_of (l, &t); lua = lua && st.find ("l_parse_") != std::string::npos; }
  for (int pass = 0; pass < 2; pass++)
    for (auto &l : all)
      if ((held.count (l.p) != 0) == (pass == 1) && n < 8)
        {
          std::string top, st = stack_of (l, &top);
          text += fmt ("    %zu bytes, %s, allocated in\n", l.n, pass ? "held by others that remain" : "held by nothing that remains") + st; n++;
          if (!top.empty () && (first.empty () || (pass == 0 && top < first))) first = top;
        }
  rep.fail (note != "" && lua ? "leak:" + note : "leak: " + first, fmt ("each execution leaves at least %zu more bytes allocated", bytes));
  rep.say (text);
}
static void mem_case (Family *f, uint64_t i, Rep &rep)
{
  static bool hooked = false;
  if (!hooked) { hooked = true; __sanitizer_install_malloc_and_free_hooks (on_malloc, on_free); }
  struct One { uint64_t trail; bool failed; size_t more; };
  auto once = [&] (int fill) {
    One o; fill_byte = fill; arena_begin (false);
    size_t a = __sanitizer_get_current_allocated_bytes () + ar_live;
    { Rep r; f->exec (i, r); o.trail = r.trail; o.failed = r.failed; rep.steps += r.steps; rep.nontrivial = rep.nontrivial || r.nontrivial; }
    arena_end ();
    size_t b = __sanitizer_get_current_allocated_bytes () + ar_live;
    o.more = b > a ? b - a : 0;
    return o;
  };
  One x = once (0xaa), y = once (0x00);
  rep.trail = x.trail;
  if (x.trail != y.trail || x.failed != y.failed)
    {
      One p = once (0xaa), q = once (0x00), r = once (0xaa), s = once (0x00);
      if (p.trail == r.trail && q.trail == s.trail && (p.trail != q.trail || p.failed != q.failed))
        {
          rep.fail ("uninitialised", "what is observed depends on what fresh memory contains");
          if (rep.verbose)
            for (int fill : { 0xaa, 0x00 }) { Rep v; v.verbose = true; fill_byte = fill; f->exec (i, v); rep.say (fmt ("--- memory filled with %02x:\n", fill) + v.text + v.msg); }
        }
    }
  if (y.more)
    {
      // caches fill up or grow now and then; a leak leaves something every time
      bool each = true; size_t least = y.more;
      for (int k = 0; k < 8 && each; k++) { One o = once (k % 2 ? 0x00 : 0xaa); each = o.more > 0; if (o.more < least) least = o.more; }
      if (each) leak_report (f, i, rep, least);
    }
  if (rep.verbose && !rep.failed) { Rep v; v.verbose = true; f->exec (i, v); rep.say (v.text); }
}
#endif
static bool mem_mode;
static void run_case (uint64_t g, Rep &rep)
{
  Family *f; uint64_t i;
  if (!locate (g, &f, &i)) { fprintf (stderr, "bad case\n"); _exit (3); }
#ifdef VF_ASAN
  if (mem_mode) { mem_case (f, i, rep); return; }
#endif
  f->exec (i, rep);
}
static void quiet_io (const char *to)
{
  int fd = open (to, O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) { dup2 (fd, 1); dup2 (fd, 2); if (fd > 2) close (fd); }
}
static void child_setup ()
{
  signal (SIGPROF, SIG_DFL);
  struct rlimit rl = { 0, 0 };
  setrlimit (RLIMIT_CORE, &rl);
}
static void worker (unsigned w, uint64_t chunk, double deadline_s, double t0);

static double now ()
{
  struct timespec ts; clock_gettime (CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
// development (tools/mutate.py): only one case in so many, up to the first failure
static unsigned every = 0;
static void worker (unsigned w, uint64_t chunk, double deadline, double)
{
  child_setup ();
  quiet_io ("/dev/null");
  Slot &sl = S->slot[w];
  for (;;)
    {
      if (!sl.busy.load ())
        {
          if (now () > deadline) { rmtree (g_scratch); _exit (0); }
          uint64_t b = S->next.fetch_add (chunk);
          if (b >= total) { rmtree (g_scratch); _exit (0); }
          sl.cur = b; sl.end = b + chunk < total ? b + chunk : total; sl.busy = 1;
        }
      while (sl.cur < sl.end)
        {
          uint64_t g = sl.cur;
          if (every > 1 && (g * 0x9E3779B97F4A7C15ull >> 40) % every) { sl.cur = g + 1; continue; }
          set_cpu_timer (SP->case_cpu_ms);
          sl.ticks++;
          Rep rep;
          run_case (g, rep);
          arena_end ();
          S->steps += rep.steps; S->done++;
          if (rep.nontrivial) S->nontriv++;
          if (rep.failed) record (g, 0, rep.cls, rep.msg);
          sl.cur = g + 1;
          if (arena_used () > ((size_t) 600 << 20)
#ifdef VF_ASAN
              || sl.ticks.load () > 5000
#endif
              )
            { sl.ticks = 0; rmtree (g_scratch); _exit (77); }
          if (S->failures > (every ? 0 : 5000)) { rmtree (g_scratch); _exit (0); }
        }
      sl.busy = 0;
    }
}

struct Verdict { bool failed; std::string cls, msg, text; uint64_t trail; bool crashed; };
static std::string first_line_matching (const std::string &out)
{
  // the most telling line of a dead child's output
  size_t p = 0; std::string best;
  while (p < out.size ())
    {
      size_t q = out.find ('\n', p);
      if (q == std::string::npos) q = out.size ();
      std::string l = out.substr (p, q - p);
      if (l.find ("ERROR") != std::string::npos || l.find ("terminate called") != std::string::npos
          || l.find ("Assertion") != std::string::npos || l.find ("SUMMARY") != std::string::npos)
        { best = l; if (l.find ("Bail out") != std::string::npos) {} }
      p = q + 1;
    }
  return best;
}
// Runs one case alone in a fresh child and captures everything.
static Verdict replay (uint64_t g, unsigned mult)
{
  Verdict v; v.failed = false; v.crashed = false; v.trail = 0;
  std::string outf = g_scratch_root + "/replay.out", resf = g_scratch_root + "/replay.res";
  unlink (resf.c_str ());
  fflush (stdout); fflush (stderr);
  pid_t p = fork ();
  if (p == 0)
    {
      child_setup (); quiet_io (outf.c_str ());
      g_scratch = "";
      set_cpu_timer (SP->case_cpu_ms * mult);
      Rep rep; rep.verbose = true;
      static Rep *rp; rp = &rep;
      run_case (g, rep);
      arena_end ();
      std::string s = fmt ("%d %llu\n", rep.failed ? 1 : 0, (unsigned long long) rep.trail);
      s += rep.cls; s += '\0'; s += rep.msg; s += '\0'; s += rep.text;
      write_file (resf, s);
      rmtree (g_scratch);
      _exit (0);
    }
  int st; waitpid (p, &st, 0);
  auto slurp = [] (const std::string &f) {
    std::string s; FILE *fp = fopen (f.c_str (), "r"); char b[65536]; size_t n;
    if (!fp) return s; while ((n = fread (b, 1, sizeof b, fp)) > 0) s.append (b, n); fclose (fp); return s; };
  std::string out = slurp (outf), res = slurp (resf);
  if (WIFEXITED (st) && WEXITSTATUS (st) == 0 && !res.empty ())
    {
      size_t nl = res.find ('\n'); int f; unsigned long long tr;
      sscanf (res.c_str (), "%d %llu", &f, &tr);
      v.failed = f; v.trail = tr;
      std::string r = res.substr (nl + 1);
      size_t a = r.find ('\0'), b = r.find ('\0', a + 1);
      v.cls = r.substr (0, a); v.msg = r.substr (a + 1, b - a - 1); v.text = r.substr (b + 1);
    }
  else
    {
      v.failed = v.crashed = true;
      std::string why;
      if (WIFSIGNALED (st))
        why = WTERMSIG (st) == SIGPROF ? "hang (CPU limit)" : fmt ("killed by signal %d (%s)", WTERMSIG (st), strsignal (WTERMSIG (st)));
      else why = fmt ("exited with status %d", WEXITSTATUS (st));
      std::string l = first_line_matching (out);
      // strip pid/time/addresses so that the class is stable
      std::string c;
      size_t k = l.find ("**: ");
      if (k != std::string::npos) { c = l.substr (k + 4); size_t t = c.find (": "); if (t != std::string::npos && t < 16 && isdigit (c[0])) c = c.substr (t + 2); }
      else c = l;
      v.cls = "crash";
      v.msg = why + (l.empty () ? "" : ": " + c);
      v.text = out.substr (0, 20000);
    }
  return v;
}

static std::string jstr (const std::string &s)
{
  std::string o = "\"";
  for (unsigned char c : s)
    {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c == '\n') o += "\\n";
      else if (c == '\t') o += "\\t";
      else if (c < 32 || c >= 127) o += fmt ("\\u%04x", c);
      else o += c;
    }
  return o + "\"";
}

static std::set<std::string> known_for (const std::string &prop, std::map<std::string, std::string> &what)
{
  // lines:  finding: property=C05 cls=<class>|| <what fails>
  std::set<std::string> r;
  FILE *fp = fopen ("known-findings.txt", "r");
  if (!fp) return r;
  char *line = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline (&line, &cap, fp)) > 0)
    {
      std::string s (line, n);
      while (!s.empty () && (s.back () == '\n' || s.back () == '\r')) s.pop_back ();
      std::string pre = "finding: property=" + prop + " cls=";
      if (s.compare (0, pre.size (), pre) != 0) continue;
      std::string rest = s.substr (pre.size ());
      size_t k = rest.find ("|| ");
      if (k == std::string::npos) continue;
      r.insert (rest.substr (0, k)); what[rest.substr (0, k)] = rest.substr (k + 3);
    }
  free (line); fclose (fp);
  return r;
}

int run (Spec &spec, int argc, char **argv)
{
  double t0 = now ();
  SP = &spec;
  mem_mode = spec.property == "C25";
  // the memory check runs several harnesses: each has its own replay and evidence files
  std::string tag = spec.property;
  if (mem_mode) { const char *b = strrchr (argv[0], '/'); tag += std::string ("-") + (b ? b + 1 : argv[0]); }
  total = 0;
  if (const char *e = getenv ("VF_ONLY"))   // development: one family
    for (size_t k = 0; k < spec.families.size (); k++) if ((int) k != atoi (e)) spec.families[k].n = 0;
  for (auto &f : spec.families) total += f.n;
  char tmpl[] = "/tmp/vfXXXXXX";
  g_scratch_root = mkdtemp (tmpl);
  chmod (g_scratch_root.c_str (), 0755);
  struct Cleanup { pid_t p; ~Cleanup () { if (getpid () == p) rmtree (g_scratch_root); } } cleanup{ getpid () };
  setvbuf (stdout, nullptr, _IOLBF, 0);
  std::map<std::string, std::string> kwhat;
  std::set<std::string> known = known_for (spec.property, kwhat);

  S = (Shared *) mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED) { perror ("mmap"); return 2; }

  // --replay G : run one case verbosely
  if (argc >= 4 && !strcmp (argv[2], "--replay"))
    {
      Verdict v = replay (strtoull (argv[3], nullptr, 10), 3);
      Family *f; uint64_t i; locate (strtoull (argv[3], nullptr, 10), &f, &i);
      printf ("case %s [%s #%llu] %s\n%s\n%s\n%s\n", argv[3], f->name.c_str (), (unsigned long long) i, f->describe (i).c_str (),
              v.text.c_str (), v.failed ? "FAILED" : "held", (v.cls + ": " + v.msg).c_str ());
      return v.failed ? 1 : 0;
    }
  double limit = thorough () ? 3600 : 420;
  if (const char *e = getenv ("VF_LIMIT")) limit = atof (e);
  double deadline = t0 + limit;

  // determinism: some cases twice, equal observations
  unsigned det = 0, detbad = 0;
  if (const char *e = getenv ("VF_MUT")) every = atoi (e);
  for (auto *ff = spec.families.data (); !every && ff != spec.families.data () + spec.families.size (); ++ff)
    {
      uint64_t base = 0; for (auto *g = spec.families.data (); g != ff; ++g) base += g->n;
      if (ff->n == 0) continue;
      uint64_t pick[2] = { ff->n / 2, ff->n - 1 };
      for (uint64_t p : pick)
        {
          if (spec.families.size () > 12 && p != ff->n - 1) continue;
          Verdict a = replay (base + p, 1), b = replay (base + p, 1);
          det++;
          if (!a.crashed && !b.crashed && a.trail != b.trail) detbad++;
        }
      if (det > 60) break;
    }

  unsigned nw = NW;
  if (const char *e = getenv ("VF_WORKERS")) nw = atoi (e);
  if (nw > NW) nw = NW;
  uint64_t chunk = total / (nw * 64) + 1;
  if (chunk > 512) chunk = 512;
  pid_t pids[NW]; memset (pids, 0, sizeof pids);
  auto spawn = [&] (unsigned w) {
    fflush (stdout); fflush (stderr);
    pid_t p = fork ();
    if (p == 0) { g_scratch = ""; worker (w, chunk, deadline, t0); _exit (0); }
    pids[w] = p;
  };
  for (unsigned w = 0; w < nw; w++) spawn (w);
  unsigned live = nw; uint64_t crashes = 0;
  while (live)
    {
      int st; pid_t p = waitpid (-1, &st, 0);
      if (p < 0) break;
      for (unsigned w = 0; w < nw; w++)
        if (pids[w] == p)
          {
            pids[w] = 0;
            rmtree (g_scratch_root + fmt ("/w%d", (int) p));
            if (WIFEXITED (st) && WEXITSTATUS (st) == 0) { live--; break; }
            if (WIFEXITED (st) && WEXITSTATUS (st) == 77) { spawn (w); break; }
            // died inside a case
            uint64_t g = S->slot[w].cur;
            record (g, 1, "crash", "");
            S->done++;
            crashes++;
            S->slot[w].cur = g + 1; S->slot[w].ticks = 0;
            if (crashes < 3000 && S->failures < 5000 && !every) spawn (w); else { live--; }
          }
    }
  if (every)
    {
      unsigned k = S->nv ? S->v[0].idx : 0; Family *f; uint64_t i;
      if (S->failures) { locate (k, &f, &i); printf ("KILLED %s %u %s\n", spec.property.c_str (), k, f->name.c_str ()); }
      return S->failures != 0;
    }
  bool complete = S->done >= total;

  // replay before report
  struct Found { uint64_t idx; std::string msg, text, desc; uint64_t count; };
  std::map<std::string, Found> bad; std::map<std::string, Found> knownhit;
  unsigned unreproduced = 0, replays = 0;
  unsigned nv = S->nv; if (nv > MAXV) nv = MAXV;
  // shortest-first: order by index
  std::vector<unsigned> ord; for (unsigned k = 0; k < nv; k++) ord.push_back (k);
  std::sort (ord.begin (), ord.end (), [] (unsigned a, unsigned b) { return S->v[a].idx < S->v[b].idx; });
  if (getenv ("VF_RECORDS")) // development: every record as it was made
    for (unsigned k : ord) { VRec &r = S->v[k]; printf ("record %llu kind %u %s %s\n", (unsigned long long) r.idx, r.kind, r.data, r.data + strlen (r.data) + 1); }
  for (unsigned k : ord)
    {
      VRec &r = S->v[k];
      std::string s (r.data, r.len); size_t z = s.find ('\0');
      std::string cls = s.substr (0, z), msg = s.substr (z + 1);
      Family *f; uint64_t i; locate (r.idx, &f, &i);
      if (r.kind == 0)
        {
          auto it = bad.find (cls); if (it != bad.end ()) { it->second.count++; continue; }
          it = knownhit.find (cls); if (it != knownhit.end ()) { it->second.count++; continue; }
        }
      if (bad.size () >= 12 || replays > 60) continue;
      Verdict v = replay (r.idx, 3); replays++;
      if (!v.failed) v = replay (r.idx, 3);
      // an assertion of the code's own, or an exception, is not a memory error
      if (v.crashed && mem_mode && v.text.find ("AddressSanitizer") == std::string::npos && v.text.find ("Assertion '") == std::string::npos) continue;
      if (!v.failed) { unreproduced++; continue; }
      if (v.crashed) cls = "crash:" + f->name + ":" + v.msg; else { cls = v.cls; msg = v.msg; }
      if (v.crashed) msg = v.msg;
      Found fd{ r.idx, msg, v.text, f->name + " #" + std::to_string (i) + ": " + f->describe (i), 1 };
      auto &m = known.count (cls) ? knownhit : bad;
      if (m.count (cls)) m[cls].count++; else m[cls] = fd;
    }

  int rc = 0;
  for (auto &kv : knownhit)
    printf ("KNOWN-FINDING: property=%s %s\n", spec.property.c_str (), kwhat[kv.first].c_str ());
  mkdir ("replays", 0755);
  unsigned n = 0;
  for (auto &kv : bad)
    {
      std::string path = fmt ("replays/%s-%u.txt", tag.c_str (), ++n);
      std::string t = "property: " + spec.property + "\nclass: " + kv.first + "\ncase: " + kv.second.desc
        + "\nreplay: " + std::string (argv[0]) + (argc > 1 ? std::string (" ") + argv[1] : "") + " --replay " + std::to_string (kv.second.idx)
        + "\n\n" + kv.second.msg + "\n\n" + kv.second.text + "\n";
      write_file (path, t);
      printf ("VIOLATION property=%s replay=%s\n  %s\n  %s\n", spec.property.c_str (), path.c_str (),
              kv.second.desc.substr (0, 600).c_str (), kv.second.msg.substr (0, 600).c_str ());
      rc = 1;
    }
  if (S->failures > 0 && bad.empty () && knownhit.empty ())
    printf ("note: %llu failing executions did not reproduce alone and are not reported\n", (unsigned long long) S->failures.load ());
  if (detbad && rc == 0) { printf ("NONDETERMINISM: %u of %u replayed pairs differ\n", detbad, det); rc = 2; }

  double wall = now () - t0;
  std::string ev = "{\n";
  ev += " \"property\": " + jstr (spec.property) + ",\n";
  ev += " \"tier\": " + jstr (thorough () ? "thorough" : "quick") + ",\n";
  ev += fmt (" \"seed\": %u,\n", seed ());
  ev += " \"level\": " + jstr (spec.level) + ",\n \"coverage\": {\n";
  if (spec.level == "model_checking")
    ev += fmt ("  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n",
               (unsigned long long) S->nstates.load (), (unsigned long long) S->steps.load (), (unsigned long long) S->done.load ());
  else
    ev += fmt ("  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"checks_made\": %llu,\n", (unsigned long long) S->done.load (),
               (unsigned long long) S->nontriv.load (), (unsigned long long) S->steps.load ());
  ev += "  \"rule\": " + jstr (spec.rule) + ",\n";
  ev += fmt ("  \"distinct_final_outcomes\": %llu,\n", (unsigned long long) S->noutcomes.load ());
  ev += fmt ("  \"nontrivial_cases\": %llu,\n", (unsigned long long) S->nontriv.load ());
  ev += fmt ("  \"cases_total\": %llu,\n  \"exhaustive\": %s,\n", (unsigned long long) total, complete ? "true" : "false");
  if (!complete) ev += "  \"cap_note\": " + jstr (fmt ("stopped after %.0f s or too many failures; cases are taken in index order, so about the first %llu of %llu are covered", limit, (unsigned long long) S->done.load (), (unsigned long long) total)) + ",\n";
  if (S->tabfull.load ()) ev += fmt ("  \"state_table_overflows\": %llu,\n", (unsigned long long) S->tabfull.load ());
  ev += fmt ("  \"determinism_pairs_replayed\": %u,\n  \"determinism_mismatches\": %u,\n", det, detbad);
  ev += fmt ("  \"failing_executions\": %llu,\n  \"unreproduced\": %u,\n", (unsigned long long) S->failures.load (), unreproduced);
  ev += "  \"families\": {";
  for (size_t i = 0; i < spec.families.size (); i++)
    ev += (i ? ", " : "") + jstr (spec.families[i].name) + ": " + std::to_string (spec.families[i].n);
  ev += "},\n";
  for (auto &kv : spec.notes) ev += "  " + jstr (kv.first) + ": " + jstr (kv.second) + ",\n";
  ev += "  \"samples\": [";
  unsigned ns = 0;
  for (auto &f : spec.families)
    {
      if (!f.n || ns > 10) continue;
      uint64_t is[2] = { f.n / 3, f.n - 1 };
      for (unsigned q = 0; q < (spec.families.size () > 4 ? 1u : 2u); q++)
        { ev += (ns++ ? ",\n   " : "\n   ") + jstr (f.name + " #" + std::to_string (is[q]) + ": " + f.describe (is[q]).substr (0, 1500)); }
    }
  ev += "]\n },\n \"assumptions\": [";
  for (size_t i = 0; i < spec.assumptions.size (); i++) ev += (i ? ", " : "") + jstr (spec.assumptions[i]);
  ev += fmt ("],\n \"wall_s\": %.2f,\n \"violations\": %u\n}\n", wall, (unsigned) bad.size ());
  mkdir ("evidence", 0755);
  write_file ((mem_mode ? "build/" : "evidence/") + tag + ".json", ev);
  printf ("%s: %llu/%llu cases, %llu steps, %llu distinct states, %llu outcomes, %llu failing, %.1fs%s\n", spec.property.c_str (),
          (unsigned long long) S->done.load (), (unsigned long long) total, (unsigned long long) S->steps.load (),
          (unsigned long long) S->nstates.load (), (unsigned long long) S->noutcomes.load (), (unsigned long long) S->failures.load (), wall,
          complete ? "" : " (INCOMPLETE)");
  if (!complete && rc == 0) printf ("note: time limit reached before the space was exhausted\n");
  return rc;
}

}
