// C27: user data attached to documents.
#include "aux-ginga.h"
#include "Document.h"
#include "vf.h"
#include <map>
#include <memory>
using namespace ginga; using vf::Rep; using vf::Spec; using vf::fmt; typedef std::string S;

static std::map<void *, int> g_clean[2];          // calls per clean-up function and datum
static std::vector<std::pair<int, void *>> g_calls;
static void clean0 (void *p) { g_calls.push_back ({ 0, p }); }
static void clean1 (void *p) { g_calls.push_back ({ 1, p }); }
static void (*FN[]) (void *) = { nullptr, clean0, clean1 };
static const S KEYS[] = { "k", "", S ("k\0x", 3) };
static char DATA[2];

struct Call { int kind, key, val, fn; };          // 0 set, 1 remove, 2 get, 3 get without result
static std::vector<Call> calls (int nk)
{
  std::vector<Call> v;
  for (int k = 0; k < nk; k++) { for (int d = 0; d < 2; d++) for (int f = 0; f < 3; f++) v.push_back ({ 0, k, d, f }); for (int f = 0; f < 2; f++) v.push_back ({ 1, k, 0, f }); v.push_back ({ 2, k, 0, 0 }); v.push_back ({ 3, k, 0, 0 }); }
  return v;
}
static S show (const Call &c)
{
  S k = c.key == 0 ? "'k'" : c.key == 1 ? "''" : "'k\\0x'";
  switch (c.kind) { case 0: return fmt ("set %s to datum %d (%s)", k.c_str (), c.val, c.fn == 0 ? "no clean-up" : c.fn == 1 ? "clean-up A" : "clean-up B"); case 1: return "remove " + k + (c.fn ? " (clean-up A)" : ""); case 2: return "get " + k; default: return "probe " + k; }
}
struct Owner { virtual bool get (const S &, void **) = 0; virtual bool set (const S &, void *, UserDataCleanFunc) = 0; virtual ~Owner () {} };
struct OD : Owner { Document d; bool get (const S &k, void **p) override { return d.getData (k, p); } bool set (const S &k, void *v, UserDataCleanFunc f) override { return d.setData (k, v, f); } };
struct OU : Owner { UserData d; bool get (const S &k, void **p) override { return d.getData (k, p); } bool set (const S &k, void *v, UserDataCleanFunc f) override { return d.setData (k, v, f); } };

static void add (Spec &sp, bool doc, int nk, unsigned depth)
{
  auto cs = std::make_shared<std::vector<Call>> (calls (nk)); uint64_t n = cs->size ();
  sp.families.push_back ({ fmt ("%s: every sequence of %u calls over %d keys", doc ? "document" : "registry alone", depth, nk), vf::ipow (n, depth), [=] (uint64_t i, Rep &r) {
      Owner *o = doc ? (Owner *) new OD : new OU; std::map<S, std::pair<void *, int>> m; vf::Dec x (i); r.nontrivial = true;
      std::vector<std::pair<int, void *>> want; g_calls.clear ();
      for (unsigned k = 0; k < depth && !r.failed; k++)
        {
          auto &c = (*cs)[x.next (n)]; const S &key = KEYS[c.key]; r.say (show (c)); r.steps++;
          auto it = m.find (key);
          if (c.kind < 2)
            {
              if (it != m.end () && it->second.second) want.push_back ({ it->second.second - 1, it->second.first });
              bool w = c.kind == 0 && it == m.end ();
              bool g = o->set (key, c.kind ? nullptr : &DATA[c.val], FN[c.fn]);
              if (g != w) r.fail ("result", show (c) + fmt (" returned %d", g));
              if (c.kind) m.erase (key); else m[key] = { &DATA[c.val], c.fn };
            }
          else
            {
              void *p = &p; bool g = o->get (key, c.kind == 2 ? &p : nullptr);
              if (g != (it != m.end ())) r.fail ("lookup", show (c) + (g ? " found something" : " found nothing"));
              else if (c.kind == 2 && p != (g ? it->second.first : (void *) &p)) r.fail ("lookup", show (c) + " yielded another value");
            }
          if (g_calls != want) r.fail ("clean-up", show (c) + fmt (": %zu clean-ups called, expected %zu, or not the right ones", g_calls.size (), want.size ()));
          for (auto &q : KEYS) { void *p = nullptr; bool g = o->get (q, &p); auto jt = m.find (q); if (g != (jt != m.end ()) || (g && p != jt->second.first)) r.fail ("lookup", "after " + show (c) + " a lookup is wrong"); }
        }
      g_calls.clear (); delete o;
      std::multiset<std::pair<int, void *>> a (g_calls.begin (), g_calls.end ()), b; S st;
      for (auto &e : m) { if (e.second.second) b.insert ({ e.second.second - 1, e.second.first }); st += e.first + fmt ("%d%d,", (int) ((char *) e.second.first - DATA), e.second.second); }
      if (a != b) r.fail ("clean-up", fmt ("destruction called %zu clean-ups, expected %zu, or not the right ones", a.size (), b.size ()));
      r.state (st); },
    [=] (uint64_t i) { S s; vf::Dec x (i); for (unsigned k = 0; k < depth; k++) s += (k ? "; " : "") + show ((*cs)[x.next (n)]); return s + "; destroy"; } });
}
int main (int argc, char **argv)
{
  if (argc < 2) return 2;
  Spec sp; sp.property = argv[1]; sp.level = "model_checking"; bool TH = vf::thorough ();
  bool mem = sp.property == "C25"; if (sp.property != "C27" && !mem) return 2;
  sp.rule = "all sequences of set, replace, remove and lookup calls, each ended by destroying the owner, against a map and a list of due clean-ups; lookups of every key after every call";
  if (mem) { add (sp, false, 2, TH ? 5 : 4); add (sp, true, 2, TH ? 4 : 3); }
  else { add (sp, false, 2, TH ? 6 : 5); add (sp, false, 3, TH ? 5 : 4); add (sp, true, 2, TH ? 5 : 4); }
  return vf::run (sp, argc, argv);
}
