#include "drive.h"
#include <memory>
#include <algorithm>
#include <cstring>
#include <unistd.h>
#include <sys/wait.h>
using namespace ginga;
using vf::fmt; using vf::Rep; using vf::Spec; using vf::Dec;
typedef std::string S;
typedef Event::Transition Tr;
static const Tr ALL[5] = { Event::START, Event::STOP, Event::PAUSE, Event::RESUME, Event::ABORT };

struct Scn
{
  S name, text; std::vector<Op> pre, ops; unsigned depth; unsigned flags = 0; std::vector<Op> post;
  bool both = true; // both allocation orders
};

static void run_seq (const Scn &s, uint64_t idx, Rep &rep)
{
  Dec d (idx);
  bool desc = s.both ? d.next (2) : false;
  {
    Drive dr (s.text, rep, s.flags, desc);
    for (auto &o : s.pre) if (!dr.step (o)) break;
    for (unsigned i = 0; i < s.depth && dr.ok (); i++) dr.step (s.ops[d.next (s.ops.size ())]);
    for (auto &o : s.post) if (!dr.step (o)) break;
  }
}
static S desc_seq (const Scn &s, uint64_t idx)
{
  Dec d (idx); bool de = s.both ? d.next (2) : false;
  S r = s.name + (de ? " [descending addresses]:" : ":");
  for (auto &o : s.pre) r += " (" + show (o) + ")";
  for (unsigned i = 0; i < s.depth; i++) r += " " + show (s.ops[d.next (s.ops.size ())]) + ";";
  return r;
}
static uint64_t LITE = 0; // for the memory check: depths are reduced until a family has at most so many cases
static unsigned lite (uint64_t base, uint64_t nops, unsigned depth)
{ while (LITE && depth > 1 && base * vf::ipow (nops, depth) > LITE) depth--; return depth; }
static void add (Spec &sp, Scn s)
{
  if (LITE) { s.both = false; s.depth = lite (1, s.ops.size (), s.depth); }
  auto p = std::make_shared<Scn> (s);
  vf::Family f; f.name = s.name; f.n = (s.both ? 2 : 1) * vf::ipow (s.ops.size (), s.depth);
  f.exec = [p] (uint64_t i, Rep &r) { run_seq (*p, i, r); };
  f.describe = [p] (uint64_t i) { return desc_seq (*p, i); };
  sp.families.push_back (f);
}

// ---- model graph: breadth-first over the model's states, every transition of
// which is replayed on the real code.
struct Node { uint32_t parent; uint16_t op; };
struct Graph { Scn s; bool desc; std::vector<Node> nodes; uint64_t expanded = 0; bool exhausted = false; };
static void bfs (Graph &g, unsigned maxdepth, unsigned hist, size_t budget, int fd)
{
  Rep dummy;
  Drive dr (g.s.text, dummy, 0, g.desc);
  if (dummy.failed) _exit (1);
  for (auto &o : g.s.pre) Drive::apply (dr.m (), o);
  std::vector<Node> nodes{ { 0, 0xffff } };
  std::set<S> seen;
  std::vector<std::pair<uint32_t, model::Model>> level{ { 0, dr.m () } };
  level[0].second.log.clear ();
  uint64_t expanded = 0; bool exhausted = false;
  auto hk = [&] (uint32_t n) { S k; for (unsigned i = 0; i < hist && n; i++) { k += fmt ("/%u", nodes[n].op); n = nodes[n].parent; } return k; };
  seen.insert (level[0].second.canon ());
  for (unsigned d = 0; d < maxdepth; d++)
    {
      if (level.empty ()) { exhausted = true; break; }
      if ((expanded + level.size ()) * g.s.ops.size () > budget) 
        {
          // the last level is expanded as far as the budget goes
          size_t room = budget / g.s.ops.size () > expanded ? budget / g.s.ops.size () - expanded : 0;
          expanded += std::min (room, level.size ());
          break;
        }
      std::vector<std::pair<uint32_t, model::Model>> next;
      for (auto &st : level)
        for (size_t k = 0; k < g.s.ops.size (); k++)
          {
            model::Model m = st.second;
            Drive::apply (m, g.s.ops[k]); m.log.clear ();
            if (m.overflow) continue;
            nodes.push_back ({ st.first, (uint16_t) k });
            if (!m.playing || !seen.insert (m.canon () + hk (nodes.size () - 1)).second) { nodes.pop_back (); continue; }
            next.push_back ({ (uint32_t) nodes.size () - 1, m });
          }
      expanded += level.size ();
      level.swap (next);
    }
  nodes.resize (expanded);
  uint64_t hdr[2] = { expanded, exhausted };
  if (write (fd, hdr, sizeof hdr) < 0) _exit (1);
  const char *p = (const char *) nodes.data (); size_t n = nodes.size () * sizeof (Node);
  while (n) { ssize_t w = write (fd, p, n); if (w <= 0) _exit (1); p += w; n -= w; }
}
static void run_path (const Graph &g, uint64_t idx, Rep &rep, S *desc)
{
  uint64_t nops = g.s.ops.size (); uint32_t node = idx / nops; std::vector<unsigned> path{ (unsigned) (idx % nops) };
  if (!g.nodes.empty ()) for (uint32_t n = node; n; n = g.nodes[n].parent) path.push_back (g.nodes[n].op);
  std::reverse (path.begin (), path.end ());
  if (desc)
    {
      *desc = g.s.name + (g.desc ? " [descending addresses]:" : ":");
      for (auto &o : g.s.pre) *desc += " (" + show (o) + ")";
      for (unsigned k : path) *desc += " " + show (g.s.ops[k]) + ";";
      return;
    }
  Drive dr (g.s.text, rep, g.s.flags, g.desc);
  for (auto &o : g.s.pre) if (!dr.step (o)) break;
  for (unsigned k : path) if (dr.ok ()) dr.step (g.s.ops[k]);
  for (auto &o : g.s.post) if (!dr.step (o)) break;
}
static void graph (Spec &sp, Scn s, unsigned maxdepth, unsigned hist, size_t budget)
{
  if (LITE) return; // its sequences are covered by add()
  for (int desc = 0; desc < (s.both ? 2 : 1); desc++)
    {
      auto g = std::make_shared<Graph> (); g->s = s; g->desc = desc;
      int fd[2]; if (pipe (fd)) exit (2);
      pid_t pid = fork ();
      if (!pid) { close (fd[0]); alarm (120); bfs (*g, maxdepth, hist, budget, fd[1]); _exit (0); }
      close (fd[1]);
      S buf; char b[65536]; ssize_t r;
      while ((r = read (fd[0], b, sizeof b)) > 0) buf.append (b, r);
      close (fd[0]); int st; waitpid (pid, &st, 0);
      if (buf.size () >= 16)
        {
          uint64_t hdr[2]; memcpy (hdr, buf.data (), 16); g->exhausted = hdr[1];
          g->nodes.resize (hdr[0]);
          if (buf.size () == 16 + hdr[0] * sizeof (Node)) memcpy (g->nodes.data (), buf.data () + 16, hdr[0] * sizeof (Node));
          else g->nodes.clear ();
        }
      vf::Family f; f.name = s.name + (desc ? " [desc]" : "");
      f.n = g->nodes.empty () ? g->s.ops.size () : g->nodes.size () * g->s.ops.size (); // on failure: just the first step, which reports it
      f.exec = [g] (uint64_t i, Rep &r) { run_path (*g, i, r, nullptr); };
      f.describe = [g] (uint64_t i) { S d; Rep r; run_path (*g, i, r, &d); return d; };
      sp.notes.push_back ({ "graph: " + f.name, fmt ("%zu model states expanded, %llu transitions replayed, depth bound %u, history %u%s", g->nodes.size (), (unsigned long long) f.n, maxdepth, hist, g->exhausted ? ", state space exhausted" : "") });
      sp.families.push_back (f);
    }
}
static void acts (std::vector<Op> &v, const S &ev, bool direct, std::initializer_list<Tr> ts)
{ for (Tr t : ts) v.push_back (direct ? X (ev, t) : A (ev, t, "7")); }
#define ALL5 { Event::START, Event::STOP, Event::PAUSE, Event::RESUME, Event::ABORT }

// ------------------------------------------------------------------ documents
static S conns ()
{
  S s = "<connectorBase>";
  const char *cond[] = { "onBegin", "onEnd", "onPause", "onResume", "onAbort" };
  const char *act[] = { "start", "stop", "pause", "resume", "abort" };
  for (auto c : cond) for (auto a : act)
    s += fmt ("<causalConnector id='%s_%s'><simpleCondition role='%s'/><simpleAction role='%s' max='unbounded' qualifier='par'/></causalConnector>", c, a, c, a);
  return s + "</connectorBase>";
}

static void c01 (Spec &sp)
{
  S head = "<connectorBase><causalConnector id='sel'><connectorParam name='k'/><simpleCondition role='onSelection' key='$k'/><simpleAction role='set' value='1'/></causalConnector>"
           "<causalConnector id='lk'><simpleCondition role='onLookAt'/><simpleAction role='set' value='2'/></causalConnector></connectorBase>";
  S doc = ncl ("<port id='p' component='m'/><port id='pc' component='c'/><port id='ps' component='s' interface='sp'/>"
               "<media id='m'><property name='x' value='0'/><area id='a' begin='1s' end='3s'/><area id='b' label='L'/></media>"
               "<context id='c'><property name='y' value='0'/><port id='q' component='n'/><media id='n'/></context>"
               "<switch id='s'><switchPort id='sp'><mapping component='s1'/></switchPort><switchPort id='sq'><mapping component='s2'/></switchPort>"
               "<defaultComponent component='s1'/><media id='s1'/><media id='s2'/></switch>"
               "<link xconnector='sel'><bind role='onSelection' component='m'/><bind role='set' component='m' interface='x'/></link>"
               "<link xconnector='lk'><bind role='onLookAt' component='m'/><bind role='set' component='m' interface='x'/></link>", head);
  for (int direct = 0; direct < 2; direct++)
    {
      Scn s; s.name = direct ? "every event x every transition, direct" : "every event x every transition, as actions";
      s.text = doc; s.pre = { T (0) };
      for (const char *e : { "m@lambda", "m@a", "m@b", "m.x", "m<>", "m<lookat>", "c@lambda", "c.y", "s@lambda", "s@sp", "n@lambda", "s1@lambda" })
        acts (s.ops, e, direct, ALL5);
      s.ops.push_back (T (1));
      Scn q = s; q.name += ", all sequences"; q.depth = vf::thorough () ? 3 : 2; add (sp, q);
      graph (sp, s, 12, vf::thorough () ? 2 : 1, vf::thorough () ? 600000 : 40000);
    }
}


// ---- a family over an enumerated set of documents x all operation sequences
struct DocFam
{
  S name; uint64_t ndocs; std::function<S (uint64_t)> mk; std::vector<Op> pre, ops; unsigned depth; unsigned flags; bool both; std::vector<Op> post;
};
static void docs (Spec &sp, DocFam d)
{
  if (LITE) { d.both = false; d.depth = lite (d.ndocs, d.ops.size (), d.depth); }
  auto p = std::make_shared<DocFam> (d);
  uint64_t seqs = (d.both ? 2 : 1) * vf::ipow (d.ops.size (), d.depth);
  vf::Family f; f.name = d.name; f.n = d.ndocs * seqs;
  f.exec = [p, seqs] (uint64_t i, Rep &r) {
    Dec q (i % seqs);
    bool desc = p->both ? q.next (2) : false;
    Drive dr (p->mk (i / seqs), r, p->flags, desc);
    for (auto &o : p->pre) if (!dr.step (o)) break;
    for (unsigned k = 0; k < p->depth && dr.ok (); k++) dr.step (p->ops[q.next (p->ops.size ())]);
    for (auto &o : p->post) if (!dr.step (o)) break;
  };
  f.describe = [p, seqs] (uint64_t i) {
    Dec q (i % seqs); bool de = p->both ? q.next (2) : false;
    S r = fmt ("document %llu%s:", (unsigned long long) (i / seqs), de ? " [descending addresses]" : "");
    for (auto &o : p->pre) r += " (" + show (o) + ")";
    for (unsigned k = 0; k < p->depth; k++) r += " " + show (p->ops[q.next (p->ops.size ())]) + ";";
    for (auto &o : p->post) r += " (" + show (o) + ")";
    return r + "\n" + p->mk (i / seqs);
  };
  sp.families.push_back (f);
}
static S media (const S &id, const S &dur = "", const S &inner = "")
{ return "<media id='" + id + "'>" + (dur == "" ? "" : "<property name='explicitDur' value='" + dur + "'/>") + inner + "</media>"; }
static S link (const S &conn, const S &c, const S &cif, const std::vector<std::pair<S, S>> &acts)
{
  S cond = conn.substr (0, conn.find ('_')), act = conn.substr (conn.find ('_') + 1);
  S s = "<link xconnector='" + conn + "'><bind role='" + cond + "' component='" + c + "'" + (cif == "" ? "" : " interface='" + cif + "'") + "/>";
  for (auto &a : acts) s += "<bind role='" + act + "' component='" + a.first + "'" + (a.second == "" ? "" : " interface='" + a.second + "'") + "/>";
  return s + "</link>";
}
static const bool TH = vf::thorough ();
static size_t B (size_t q, size_t t) { return TH ? t : q; }

static S lparam (const S &n, const S &v) { return "<linkParam name='" + n + "' value='" + v + "'/>"; }
// ---- C02: compositions
static void c02 (Spec &sp)
{
  S doc1 = ncl ("<port id='p0' component='c'/><port id='p1' component='k'/>"
                "<context id='c'><port id='q' component='d'/><port id='q2' component='n'/>" + media ("n")
                + "<context id='d'><port id='r' component='o'/>" + media ("o") + media ("w") + "</context></context>" + media ("k") + media ("z"));
  S doc2 = ncl ("<port id='p0' component='c'/><port id='p1' component='k'/>" + media ("k") +
                "<context id='c'><port id='q' component='s' interface='sp'/>"
                "<switch id='s'><switchPort id='sp'><mapping component='s1'/></switchPort><switchPort id='sq'><mapping component='e'/></switchPort>"
                "<bindRule constituent='e' rule='r'/><defaultComponent component='s1'/>" + media ("s1")
                + "<context id='e'><port id='t' component='f'/>" + media ("f") + "</context></switch></context>",
                "<ruleBase><rule id='r' var='v' comparator='eq' value='1'/></ruleBase>");
  S doc3 = ncl ("<port id='p0' component='k'/>" + media ("k") + "<context id='c'><port id='q' component='n'/><port id='q2' component='d'/>" + media ("n", "2s") +
                "<context id='d'><port id='r' component='o'/>" + media ("o", "1s") + "</context></context>"
                + link ("onBegin_start", "k", "", { { "c", "q" } }) + link ("onEnd_stop", "c", "", { { "k", "" } }) , conns ());
  struct { const char *n; S t; std::vector<const char *> ev; } ds[] = {
    { "nested contexts", doc1, { "c@lambda", "d@lambda", "n@lambda", "o@lambda", "w@lambda", "z@lambda", "k@lambda", "__root__@lambda" } },
    { "switch inside a context", doc2, { "c@lambda", "s@lambda", "s@sp", "s@sq", "s1@lambda", "e@lambda", "f@lambda", "k@lambda" } },
    { "context entered through one port", doc3, { "c@lambda", "d@lambda", "n@lambda", "o@lambda", "k@lambda" } } };
  for (auto &d : ds)
    {
      Scn s; s.name = d.n; s.text = d.t; s.pre = { T (0) };
      for (auto e : d.ev) acts (s.ops, e, false, ALL5);
      s.ops.push_back (T (1));
      Scn q = s; q.name += ", all sequences"; q.depth = TH ? 3 : 2; add (sp, q);
      Scn nopre = s; nopre.pre.clear (); nopre.name += ", from the first instant"; 
      graph (sp, s, 12, TH ? 2 : 1, B (60000, 800000));
      graph (sp, nopre, 12, 0, B (12000, 100000));
    }
  sp.rule += "; besides the model, containment is checked directly after every operation";
}

// ---- C03: natural end
static S c03_doc (uint64_t i)
{
  Dec d (i); const char *du[] = { "", "1s", "2s" };
  S a = du[d.next (3)], b = du[d.next (3)], c = du[d.next (3)]; unsigned ports = d.next (4), shape = d.next (4);
  S pa = ports & 1 ? "<port id='pa' component='b'/>" : "", pb = ports & 2 ? "<port id='pb' component='c'/>" : "";
  switch (shape)
    {
    case 0: return ncl ("<port id='p' component='a'/>" + pa + pb + media ("a", a) + media ("b", b) + media ("c", c));
    case 1: return ncl ("<port id='p' component='x'/>" + pb + "<context id='x'><port id='q' component='a'/>" + pa + media ("a", a) + media ("b", b) + "</context>" + media ("c", c));
    case 2: return ncl ("<port id='p' component='x'/><context id='x'><port id='q' component='y'/>" + pb + media ("c", c)
                        + "<context id='y'><port id='q1' component='a'/>" + pa + media ("a", a) + media ("b", b) + "</context></context>");
    default: return ncl (S ("<port id='p' component='s'") + (ports & 1 ? " interface='sp'" : "") + "/>" + pb + media ("c", c) + "<switch id='s'><switchPort id='sp'><mapping component='b'/></switchPort>"
                         "<defaultComponent component='" + (ports & 1 ? "b" : "a") + "'/>" + media ("a", a) + media ("b", b) + "</switch>");
    }
}
static void c03 (Spec &sp)
{
  DocFam d; d.name = "documents (shape x ports x durations) x tick histories"; d.ndocs = 27 * 16; d.mk = c03_doc; d.both = true; d.flags = 0;
  d.ops = { T (1), T (0.5), T (2.5) }; d.depth = TH ? 6 : 4; d.post = { T (0), K ("RED") };
  docs (sp, d);
  DocFam g = d; g.name = "documents x ticks and interventions"; g.ops = { T (1), A ("a@lambda", Event::STOP), A ("c@lambda", Event::START), A ("b@lambda", Event::PAUSE), A ("b@lambda", Event::RESUME), A ("a@lambda", Event::START),
      A ("a@lambda", Event::ABORT), A ("__settings__@lambda", Event::PAUSE), A ("__settings__@lambda", Event::STOP) };
  g.depth = TH ? 4 : 3; g.pre = { T (0) }; g.both = TH; docs (sp, g);
  // 'end' notifications: links observing the natural end
  DocFam h = d; h.name = "natural end observed by links"; h.flags = C_ORDER; h.ndocs = 27 * 16;
  h.mk = [] (uint64_t i) { S t = c03_doc (i); size_t p = t.find ("<head>"); t.insert (p + 6, conns ());
    S l = link ("onEnd_start", (i / 27 / 4) % 4 == 2 ? "x" : "c", "", { { "zz", "" } }) + media ("zz", "1s");
    return t.insert (t.find ("</body>"), l); };
  h.depth = 3; h.both = TH; docs (sp, h);
  // actions that are still pending when the last child ends
  DocFam w = d; w.name = "pending delayed actions at the natural end"; w.flags = C_ORDER; w.ndocs = 3 * 3 * 4 * 2;
  w.mk = [] (uint64_t i) { Dec q (i); const char *du[] = { "1s", "2s", "" }, *de[] = { "0.5s", "3s", "$st.t" }; S a = du[q.next (3)], D = de[q.next (3)]; unsigned where = q.next (4), act = q.next (2);
    S h = S ("<connectorBase><causalConnector id='k'><simpleCondition role='onEnd'/><simpleAction role='") + (act ? "set' value='1" : "start") + "' delay='$dl'/></causalConnector></connectorBase>";
    auto lk = [&] (const S &from, const S &to) { return "<link xconnector='k'>" + lparam ("dl", D) + "<bind role='onEnd' component='" + from + "'/><bind role='" + (act ? S ("set") : S ("start")) + "' component='" + to + "'" + (act ? " interface='x'" : "") + "/></link>"; };
    S X = "<property name='x' value='0'/>";
    return ncl (S ("<port id='p' component='c'/>") + (where & 1 ? "<port id='z' component='n'/>" : "") + media ("n", "", X) + "<media id='st' type='application/x-ginga-settings'><property name='t' value='2s'/></media>"
      "<context id='c'><port id='p1' component='m'/>" + (where & 2 ? "<port id='p2' component='y'/><context id='y'><port id='p3' component='o'/>" + media ("o", a) + media ("o2", "", X) + lk ("o", "o2") + "</context>" : S ()) + media ("m", a) + media ("q", "1s", X) + lk ("m", "q") + "</context>" + lk ("c", "n"), h); };
  w.ops = { T (1), T (0.5), T (2.5), T (0) }; w.depth = TH ? 6 : 5; docs (sp, w);
}

// contexts entered only by starting something inside them
static void c03b (Spec &sp)
{
  DocFam d; d.name = "contexts with and without ports whose contents are started one by one"; d.flags = 0; d.both = TH; d.ndocs = 4 * 3 * 3 * 3;
  d.mk = [] (uint64_t i) { Dec q (i); const char *du[] = { "", "1s", "2s" }; unsigned ports = q.next (4); S a = du[q.next (3)], b = du[q.next (3)]; unsigned v = q.next (3);
    S P1 = ports & 1 ? "<port id='q1' component='a'/>" : "", P2 = ports & 2 ? "<port id='q2' component='b'/>" : "";
    S y = "<context id='y'>" + P2 + media ("b", b) + "</context>";
    S x = "<context id='x'>" + P1 + media ("a", a) + (v == 1 ? y : S ()) + "</context>" + (v == 1 ? S () : y);
    return ncl (S (v == 2 ? "" : "<port id='p' component='k'/>") + media ("k", v ? "" : "3s") + x + link ("onBegin_start", "k", "", { { "x", "" } }) + link ("onEnd_start", "x", "", { { v == 1 ? "k" : "y", "" } }) + "<context id='e'/>", conns ()); };
  d.ops = { T (1), T (0.5), T (2.5), A ("a@lambda", Event::START), A ("b@lambda", Event::START), A ("x@lambda", Event::START), A ("y@lambda", Event::START), A ("a@lambda", Event::STOP), A ("e@lambda", Event::START), A ("k@lambda", Event::START) };
  d.depth = TH ? 5 : 3; d.post = { T (0), T (3), T (0), K ("RED") }; docs (sp, d);
}

// ---- C04: links
static const char *COND[] = { "onBegin", "onEnd", "onPause", "onResume", "onAbort" };
static const char *ACTN[] = { "start", "stop", "pause", "resume", "abort" };
static S cn (unsigned c, unsigned a) { return S (COND[c]) + "_" + ACTN[a]; }
static void c04 (Spec &sp)
{
  // two chained links, all condition/action pairs
  DocFam d; d.name = "two chained links, every pair of roles"; d.ndocs = 5 * 5 * 5 * 5; d.flags = C_ORDER; d.both = false;
  d.mk = [] (uint64_t i) { Dec q (i); unsigned c1 = q.next (5), a1 = q.next (5), c2 = q.next (5), a2 = q.next (5);
    return ncl ("<port id='p' component='m1'/><port id='p2' component='m2'/>" + media ("m1") + media ("m2") + media ("m3")
      + link (cn (c1, a1), "m1", "", { { "m2", "" }, { "m3", "" } }) + link (cn (c2, a2), "m2", "", { { "m3", "" }, { "m1", "" } }), conns ()); };
  d.pre = { T (0) };
  for (const char *e : { "m1@lambda", "m2@lambda" }) acts (d.ops, e, false, { Event::START, Event::STOP, Event::PAUSE, Event::RESUME, Event::ABORT });
  d.depth = TH ? 3 : 2; docs (sp, d);
  // two links on the same event: order; and a third one reacting to the outcome
  DocFam e; e.name = "two links on one event, and links on their effects"; e.ndocs = 5 * 5 * 5 * 4; e.flags = C_ORDER; e.both = true;
  e.mk = [] (uint64_t i) { Dec q (i); unsigned c = q.next (5), a1 = q.next (5), a2 = q.next (5), v = q.next (4);
    S l1 = link (cn (c, a1), "m1", "", { { "m2", "" }, { "m3", "" } }), l2 = link (cn (c, a2), "m1", "", { { "m3", "" }, { "m4", "" } });
    S l3 = link ("onBegin_stop", "m3", "", { { "m4", "" } }) + link ("onEnd_start", "m3", "", { { "m4", "" } });
    S l4 = link ("onBegin_start", "m4", "", { { "m5", "" } }) + link ("onEnd_stop", "m2", "", { { "m5", "" } });
    return ncl ("<port id='p' component='m1'/><port id='p2' component='m2'/>" + media ("m1") + media ("m2") + media ("m3") + media ("m4") + media ("m5")
      + (v & 1 ? l2 + l1 : l1 + l2) + (v & 2 ? l4 + l3 : l3 + l4), conns ()); };
  e.pre = { T (0) };
  acts (e.ops, "m1@lambda", false, ALL5); acts (e.ops, "m3@lambda", false, { Event::START, Event::STOP });
  e.depth = TH ? 3 : 2; docs (sp, e);
  // links across context borders: ports, several ports, nesting, the context's own event
  DocFam f; f.name = "links across context borders"; f.ndocs = 5 * 5 * 6; f.flags = C_ORDER; f.both = true;
  f.mk = [] (uint64_t i) { Dec q (i); unsigned c = q.next (5), a = q.next (5), v = q.next (6);
    S k = cn (c, a);
    S inner = "<context id='c'><port id='q' component='n'/><port id='q2' component='n' interface='ar'/><port id='q3' component='d' interface='r'/>"
      + media ("n", "", "<area id='ar' begin='1s'/>") + media ("n2")
      + "<context id='d'><port id='r' component='o'/>" + media ("o") + media ("o2") + (v == 4 ? link (k, "o", "", { { "o2", "" } }) : "") + "</context>"
      + (v == 1 || v == 5 ? link (k, "n", "", { { "n2", "" } }) : v == 2 ? link (k, "d", "r", { { "n2", "" } }) : v == 3 ? link (k, "c", "", { { "n2", "" } }) : "") + "</context>";
    S outer = (v == 0 || v == 5 ? link (k, "c", "q", { { "m", "" } }) : v == 4 ? link (k, "c", "q3", { { "m", "" } }) : v == 2 ? link (k, "c", "q3", { { "m2", "" } }) : link (k, "c", "", { { "m", "" } }))
      + link ("onBegin_start", "m", "", { { "m2", "" } });
    return ncl ("<port id='p' component='c'/><port id='p2' component='k'/>" + media ("k") + media ("m") + media ("m2") + inner + outer, conns ()); };
  f.pre = { T (0) };
  for (const char *x : { "n@lambda", "o@lambda", "c@lambda", "d@lambda" }) acts (f.ops, x, false, { Event::START, Event::STOP, Event::PAUSE, Event::RESUME, Event::ABORT });
  f.ops.push_back (T (0)); f.ops.push_back (T (1));
  f.depth = 2; docs (sp, f);
  if (TH) { f.depth = 3; f.both = false; f.name += " (deep)"; docs (sp, f); }
  // selections, attributions and anchors seen from outside through ports
  DocFam g; g.name = "events of every type reached through ports"; g.flags = C_ORDER; g.both = TH; g.ndocs = 6 * 4 * 3;
  g.mk = [] (uint64_t i) { Dec q (i); unsigned c = q.next (6), pt = q.next (4), nest = q.next (3);
    static const char *role[] = { "onSelection", "onEndSelection", "onBeginAttribution", "onEndAttribution", "onBegin", "onEnd" };
    S h = S ("<connectorBase><causalConnector id='lk'><connectorParam name='key'/><simpleCondition role='") + role[c] + "'" + (c < 2 ? " key='$key'" : "") + "/><compoundAction operator='seq'><simpleAction role='start'/><simpleAction role='set' value='1'/></compoundAction></causalConnector>"
      "<causalConnector id='in'><connectorParam name='key'/><simpleCondition role='" + role[c] + "'" + (c < 2 ? " key='$key'" : "") + "/><simpleAction role='start'/></causalConnector></connectorBase>";
    static const char *itf[] = { "", " interface='x'", " interface='ar'", "" };
    // the port leads to the medium, its property, its anchor; or (3) one port of each kind, the link being on the first
    S P = S ("<port id='q' component='n'") + itf[pt] + "/>" + (pt == 3 ? "<port id='q2' component='n' interface='x'/><port id='q3' component='n2'/>" : "");
    S kp = c < 2 ? "<bindParam name='key' value='RED'/>" : "";
    S N = media ("n", "", "<property name='x' value='0'/><area id='ar' begin='1s' end='2s'/>") + media ("n2");
    // the medium's own event, named inside; from outside it is named through the port
    S ln = S ("<link xconnector='in'><bind role='") + role[c] + "' component='n'" + (c == 2 || c == 3 ? " interface='x'" : "") + ">" + kp + "</bind><bind role='start' component='n2'/></link>";
    S C = "<context id='c'>" + P + N + (nest != 1 ? ln : S ()) + "</context>";
    if (nest == 2) C = "<context id='d'><port id='r' component='c' interface='q'/>" + C + "</context>";
    bool attr = c == 2 || c == 3;
    S out = S ("<link xconnector='lk'><bind role='") + role[c] + "' component='" + (nest == 2 ? "d' interface='r'" : "c' interface='q'") + ">" + kp + "</bind><bind role='start' component='m'/><bind role='set' component='m' interface='y'/></link>";
    if (attr != (pt == 1) || (c < 2 && pt == 2)) out = ""; // such a bind is refused: C14
    return ncl (S ("<port id='p' component='") + (nest == 2 ? "d" : "c") + "'/><port id='p2' component='k'/>" + media ("k") + media ("m", "", "<property name='y' value='0'/>") + C + out, h); };
  g.pre = { T (0), T (0) };
  g.ops = { K ("RED"), K ("RED", false), K ("BLUE"), T (1), A ("n.x", Event::START, "5"), A ("n@lambda", Event::STOP), A ("n@lambda", Event::START), A ("c@lambda", Event::PAUSE), A ("n2@lambda", Event::STOP), A ("m@lambda", Event::STOP) };
  g.depth = TH ? 5 : 3; docs (sp, g);
  // actions that are refused between others of the same link
  DocFam r; r.name = "refused actions between others"; r.flags = C_ORDER; r.both = false; r.ndocs = 5 * 5 * 4;
  r.mk = [] (uint64_t i) { Dec q (i); unsigned a1 = q.next (5), a2 = q.next (5), what = q.next (4); static const char *T1[] = { "c", "d", "s", "m" };
    S h = S ("<connectorBase><causalConnector id='lk'><simpleCondition role='onEnd'/><compoundAction operator='seq'><simpleAction role='first' eventType='presentation' actionType='") + ACTN[a1] + "'/><simpleAction role='set' value='1'/><simpleAction role='second' eventType='presentation' actionType='" + ACTN[a2] + "'/><simpleAction role='start' max='2'/></compoundAction></causalConnector></connectorBase>";
    return ncl (S ("<port id='p' component='k'/><port id='pz' component='z'/>") + media ("k") + media ("z") + media ("m", "", "<property name='x' value='0'/>") + media ("t") + "<context id='c'>" + media ("n") + "</context><context id='d'>" + media ("o") + "</context><switch id='s'><defaultComponent component='s1'/>" + media ("s1") + "</switch>"
      "<link xconnector='lk'><bind role='onEnd' component='k'/><bind role='first' component='" + T1[what] + "'/><bind role='set' component='m' interface='x'/><bind role='second' component='" + T1[(what + 1) % 4] + "'/><bind role='start' component='m'/><bind role='start' component='t'/></link>", h); };
  r.pre = { T (0) };
  for (const char *x : { "n@lambda", "o@lambda", "s@lambda", "c@lambda", "d@lambda", "m@lambda" }) acts (r.ops, x, false, { Event::START, Event::STOP });
  r.ops.push_back (A ("k@lambda", Event::STOP)); r.ops.push_back (T (0)); r.post = { A ("k@lambda", Event::STOP), A ("k@lambda", Event::START), A ("k@lambda", Event::STOP) };
  r.depth = TH ? 4 : 2; docs (sp, r);
  // one event named by several conditions of one link
  DocFam o; o.name = "conditions on the same event in one link"; o.flags = C_ORDER; o.both = false; o.ndocs = 4 * 4 * 4 * 3;
  o.mk = [] (uint64_t i) { Dec q (i); unsigned k[3] = { (unsigned) q.next (4), (unsigned) q.next (4), (unsigned) q.next (4) }, v = q.next (3);
    // each: on the end of m or n, always / if x = 1 / if x != 1 / if x = 1 and y = 1
    S cd, bd; static const char *tr[] = { "stops", "starts", "stops" };
    for (unsigned j = 0; j < 3; j++)
      {
        S sc = fmt ("<simpleCondition role='c%u' eventType='presentation' transition='%s'/>", j, v == 2 ? "stops" : tr[(j + v) % 3]);
        auto as = [&] (const S &r, const char *op, const S &p) { bd += "<bind role='" + r + "' component='m' interface='" + p + "'/>"; return "<assessmentStatement comparator='" + S (op) + "'><attributeAssessment role='" + r + "'/><valueAssessment value='1'/></assessmentStatement>"; };
        S st = k[j] == 0 ? S () : as (fmt ("t%u", j), k[j] == 2 ? "ne" : "eq", "x") + (k[j] == 3 ? as (fmt ("u%u", j), "eq", "y") : S ());
        cd += st == "" ? sc : "<compoundCondition operator='and'>" + sc + st + "</compoundCondition>";
        bd += fmt ("<bind role='c%u' component='m'/>", j);
      }
    S h = "<connectorBase><causalConnector id='lk'><compoundCondition operator='or'>" + cd + "</compoundCondition><compoundAction operator='seq'><simpleAction role='start'/><simpleAction role='set' value='$v'/></compoundAction></causalConnector>"
      "<causalConnector id='e'><simpleCondition role='onEndAttribution'/><simpleAction role='stop'/></causalConnector></connectorBase>";
    return ncl ("<port id='p' component='m'/><port id='pk' component='k'/>" + media ("k") + media ("m", "", "<property name='x' value='0'/><property name='y' value='0'/>") + media ("t", "", "<property name='z' value='0'/>")
      + "<link xconnector='lk'>" + lparam ("v", "$m.x") + bd + "<bind role='start' component='t'/><bind role='set' component='t' interface='z'/></link><link xconnector='e'><bind role='onEndAttribution' component='t' interface='z'/><bind role='stop' component='t'/></link>", h); };
  o.pre = { T (0) };
  o.ops = { A ("m@lambda", Event::STOP), A ("m@lambda", Event::START), A ("m.x", Event::START, "1"), A ("m.x", Event::START, "2"), A ("m.y", Event::START, "1"), A ("t@lambda", Event::STOP), T (0) };
  o.depth = TH ? 5 : 3; docs (sp, o);
  // conditions: compound, on attribution, on anchors, with assessments
  S h2 = "<connectorBase>"
    "<causalConnector id='or2'><compoundCondition operator='or'><simpleCondition role='onBegin' max='unbounded' qualifier='or'/><simpleCondition role='onEnd' max='unbounded' qualifier='or'/></compoundCondition><compoundAction operator='seq'><simpleAction role='start' max='unbounded'/><simpleAction role='stop' max='unbounded'/></compoundAction></causalConnector>"
    "<causalConnector id='as'><compoundCondition operator='and'><simpleCondition role='onBegin'/><assessmentStatement comparator='eq'><attributeAssessment role='x' eventType='attribution' attributeType='nodeProperty'/><valueAssessment value='1'/></assessmentStatement></compoundCondition><simpleAction role='start'/></causalConnector>"
    "<causalConnector id='at'><simpleCondition role='onEndAttribution'/><simpleAction role='start'/></causalConnector>"
    "<causalConnector id='ab'><simpleCondition role='onBeginAttribution'/><simpleAction role='set' value='1'/></causalConnector></connectorBase>";
  S d2 = ncl ("<port id='p' component='m1'/>" + media ("m1", "", "<property name='x' value='0'/><area id='a1' begin='1s' end='2s'/>") + media ("m2", "", "<property name='y' value='0'/>") + media ("m3") + media ("m4") +
    "<link xconnector='or2'><bind role='onBegin' component='m1' interface='a1'/><bind role='onBegin' component='m3'/><bind role='onEnd' component='m2'/><bind role='start' component='m2'/><bind role='stop' component='m4'/></link>"
    "<link xconnector='as'><bind role='onBegin' component='m2'/><bind role='x' component='m1' interface='x'/><bind role='start' component='m4'/></link>"
    "<link xconnector='at'><bind role='onEndAttribution' component='m1' interface='x'/><bind role='start' component='m3'/></link>"
    "<link xconnector='ab'><bind role='onBeginAttribution' component='m1' interface='x'/><bind role='set' component='m2' interface='y'/></link>", h2);
  Scn s; s.name = "compound conditions, assessments, attribution conditions"; s.text = d2; s.flags = C_ORDER; s.pre = { T (0) };
  for (const char *x : { "m1@lambda", "m2@lambda", "m3@lambda", "m4@lambda" }) acts (s.ops, x, false, { Event::START, Event::STOP });
  s.ops.push_back (A ("m1.x", Event::START, "1")); s.ops.push_back (A ("m1.x", Event::START, "0")); s.ops.push_back (T (1)); s.ops.push_back (A ("m1@a1", Event::STOP));
  s.depth = TH ? 5 : 3; add (sp, s);
  graph (sp, s, 10, 1, B (20000, 200000));
}

// ---- C05: delays
static void c05 (Spec &sp)
{
  DocFam d; d.name = "two delayed actions x cancelling, pausing and tick partitions"; d.flags = C_ORDER; d.both = false;
  static const char *dl[] = { "0s", "1s", "1.5s", "2s", "$settings.d", "" };
  d.ndocs = 6 * 6 * 3;
  d.mk = [] (uint64_t i) { Dec q (i); S d1 = dl[q.next (6)], d2 = dl[q.next (6)]; unsigned v = q.next (3);
    auto at = [] (const S &x) { return x == "" ? S () : x[0] == '$' ? S (" delay='$dl'") : " delay='" + x + "'"; };
    S lp = lparam ("dl", "$settings.d");
    S h = "<connectorBase><causalConnector id='k1'><simpleCondition role='onBegin'/><simpleAction role='start'" + at (d1) + "/></causalConnector>"
      "<causalConnector id='k2'><simpleCondition role='onBegin'/><compoundAction operator='par'><simpleAction role='stop'" + at (d2) + "/><simpleAction role='set' value='5' duration='1s'" + at (d1) + "/></compoundAction></causalConnector>"
      "<causalConnector id='k3'><simpleCondition role='onBegin'/><simpleAction role='" + (v == 0 ? "stop" : v == 1 ? "pause" : "abort") + "'" + at (d2) + "/></causalConnector></connectorBase>";
    return ncl ("<port id='p' component='c'/><port id='p2' component='k'/>" + media ("k")
      + "<media id='settings' type='application/x-ginga-settings'><property name='d' value='1s'/></media>"
      "<context id='c'><port id='q' component='m'/>" + media ("m") + media ("n") + media ("o", "", "<property name='w' value='0'/>") +
      "<link xconnector='k1'>" + lp + "<bind role='onBegin' component='m'/><bind role='start' component='n'/></link>"
      "<link xconnector='k2'>" + lp + "<bind role='onBegin' component='m'/><bind role='stop' component='n'/><bind role='set' component='o' interface='w'/></link>"
      "<link xconnector='k3'>" + lp + "<bind role='onBegin' component='n'/><bind role='" + (v == 0 ? "stop" : v == 1 ? "pause" : "abort") + "' component='m'/></link>"
      "</context>", h); };
  d.pre = { T (0) };
  d.ops = { T (0.5), T (1), T (2), A ("c@lambda", Event::PAUSE), A ("c@lambda", Event::RESUME), A ("c@lambda", Event::STOP), A ("c@lambda", Event::START), A ("m@lambda", Event::STOP), A ("m@lambda", Event::START) };
  d.depth = TH ? 5 : 3; docs (sp, d);
  // tick partitions: same elapsed time reached by different tick sizes
  DocFam p = d; p.name = "tick partitions"; p.ops = { T (0.5), T (1), T (1.5), T (3) }; p.depth = TH ? 7 : 5; docs (sp, p);
  // one action pausing or stopping the object that still has due actions
  DocFam e; e.name = "several actions due in one tick, one of which pauses or stops their context"; e.flags = C_ORDER; e.both = true; e.ndocs = 4 * 3 * 3;
  e.mk = [] (uint64_t i) { Dec q (i); unsigned a = q.next (4), pos = q.next (3), x = q.next (3); static const char *ax[] = { "pause", "stop", "abort", "start" };
    S A[3]; const char *rest[] = { "start", "set", "start" };
    S con = "<connectorBase>", ln;
    S binds[3] = { "<bind role='start' component='n'/>", "<bind role='set' component='o' interface='w'/>", "<bind role='start' component='o'/>" };
    for (unsigned k = 0, r = 0; k < 4; k++)
      {
        bool me = k == pos;
        S role = me ? ax[a] : rest[r], del = fmt ("%us", me ? x + 1 : r + 1), id = fmt ("q%u", k);
        con += "<causalConnector id='" + id + "'><simpleCondition role='onBegin'/><simpleAction role='" + role + "' " + (role == "set" ? "value='3' " : "") + "delay='" + del + "'/></causalConnector>";
        ln += "<link xconnector='" + id + "'><bind role='onBegin' component='m'/>" + (me ? "<bind role='" + role + "' component='c'/>" : binds[r]) + "</link>";
        if (!me) r++;
      }
    return ncl ("<port id='p' component='c'/><port id='p2' component='k'/>" + media ("k") + "<context id='c'><port id='q' component='m'/>" + media ("m") + media ("n") + media ("o", "", "<property name='w' value='0'/>") + ln + "</context>", con + "</connectorBase>"); };
  e.pre = { T (0) }; e.ops = { T (1), T (2), T (5), A ("c@lambda", Event::RESUME), A ("c@lambda", Event::START), A ("c@lambda", Event::PAUSE) }; e.depth = TH ? 5 : 4; docs (sp, e);
}

// ---- C06: anchors and durations
static void c06 (Spec &sp)
{
  static const char *bg[] = { "", "0s", "1s", "1.5s" }, *en[] = { "", "1s", "2s", "2.5s" }, *du[] = { "", "1.5s", "2s", "4s" };
  DocFam d; d.name = "anchor intervals x duration x how the object is started x tick partitions"; d.flags = 0; d.both = false;
  d.ndocs = 16 * 16 * 4 * 3;
  d.mk = [] (uint64_t i) { Dec q (i); unsigned b1 = q.next (4), e1 = q.next (4), b2 = q.next (4), e2 = q.next (4); S dd = du[q.next (4)]; unsigned how = q.next (3);
    auto ar = [] (const S &id, unsigned b, unsigned e) { S s = "<area id='" + id + "'"; if (*bg[b]) s += S (" begin='") + bg[b] + "'"; if (*en[e]) s += S (" end='") + en[e] + "'"; return s + "/>"; };
    return ncl (S ("<port id='p' component='m'") + (how == 1 ? " interface='a1'" : "") + "/>" + (how == 2 ? "<port id='pp' component='k'/>" : "") + media ("k", "6s") + media ("m", dd, ar ("a1", b1, e1) + ar ("a2", b2, e2))
      + (how == 2 ? link ("onBegin_start", "k", "", { { "m", "a2" } }) : ""), conns ()); };
  d.ops = { T (0.5), T (1), T (2) }; d.depth = TH ? 5 : 3; docs (sp, d);
  DocFam e = d; e.name = "anchors under pause, resume, stop and restart"; e.ndocs = 16 * 4 * 3;
  e.mk = [] (uint64_t i) { Dec q (i); unsigned b1 = q.next (4), e1 = q.next (4); S dd = du[q.next (4)]; unsigned how = q.next (3);
    S a = "<area id='a1'"; if (*bg[b1]) a += S (" begin='") + bg[b1] + "'"; if (*en[e1]) a += S (" end='") + en[e1] + "'";
    return ncl (S ("<port id='p' component='m'") + (how == 1 ? " interface='a1'" : "") + "/><port id='pp' component='k'/>" + media ("k") + media ("m", dd, a + "/><area id='a2' begin='1s' end='3s'/>")
      + (how == 2 ? link ("onEnd_stop", "m", "a1", { { "k", "" } }) + link ("onBegin_pause", "m", "a2", { { "k", "" } }) + link ("onPause_stop", "m", "a1", { { "m", "" } }) + link ("onResume_abort", "m", "a2", { { "m", "" } }) : ""), conns ()); };
  e.pre = { T (0) };
  e.ops = { T (1), T (0.5), A ("m@lambda", Event::PAUSE), A ("m@lambda", Event::RESUME), A ("m@lambda", Event::STOP), A ("m@lambda", Event::START), A ("m@a1", Event::START), A ("m@a1", Event::STOP), A ("m@a2", Event::START) };
  e.depth = TH ? 5 : 3; docs (sp, e);
}

// ---- C08: switches
static void c08 (Spec &sp)
{
  DocFam d; d.name = "bindings x default x ports x variable values"; d.flags = C_ORDER; d.both = TH; d.ndocs = 8 * 3 * 6 * 5;
  static const char *rules[] = { "r1", "r2", "rc", "rn", "ro", "ra", "re", "rd" };
  static const char *vals[] = { "", "1", "2", "10", "a" };
  d.mk = [] (uint64_t i) { Dec q (i); unsigned r1 = q.next (8), df = q.next (3), pt = q.next (6); S v = vals[q.next (5)];
    S h = "<ruleBase><rule id='r1' var='v' comparator='eq' value='1'/><rule id='r2' var='v' comparator='gt' value='1'/>"
      "<compositeRule id='rc' operator='or'><rule id='x1' var='v' comparator='lt' value='2'/><rule id='x2' var='v' comparator='gte' value='3'/></compositeRule>"
      "<rule id='rn' var='v' comparator='ne' value='1'/><compositeRule id='ro' operator='and'><rule id='x3' var='v' comparator='lte' value='3'/><rule id='x4' var='u' comparator='eq' value='7'/></compositeRule>"
      "<rule id='ra' var='u' comparator='eq' value='7'/><rule id='re' var='v' comparator='eq' value=''/><rule id='rd' var='none' comparator='eq' value='1'/></ruleBase>";
    S sw = "<switch id='s'>";
    sw += S ("<switchPort id='sp'><mapping component='s1'/>") + (pt & 1 ? "<mapping component='s2' interface='a'/>" : "<mapping component='s2'/>") + (pt >= 4 ? "<mapping component='s3' interface='z'/>" : pt >= 2 ? "<mapping component='s3'/>" : "") + "</switchPort>";
    sw += S ("<switchPort id='sq'><mapping component='s2'/></switchPort>");
    sw += S ("<bindRule constituent='s2' rule='") + rules[r1] + "'/><bindRule constituent='s1' rule='r1'/>";
    if (df) sw += S ("<defaultComponent component='s") + (df == 1 ? "3" : "2") + "'/>";
    sw += media ("s1") + media ("s2", "", "<area id='a' begin='1s'/>") + "<context id='s3'><port id='z' component='y'/>" + media ("y", "1s") + "</context></switch>";
    return ncl ("<port id='p' component='k'/>" + media ("k") + "<media id='st' type='application/x-ginga-settings'><property name='v' value='" + v + "'/><property name='u' value='7'/></media>" + sw + media ("l1") + media ("l2")
      + link ("onBegin_start", "s", "sp", { { "l1", "" } }) + link ("onEnd_stop", "s", "sp", { { "l1", "" } }) + link ("onEnd_start", "s", "", { { "l2", "" } }), h + conns ()); };
  d.pre = { T (0) };
  acts (d.ops, "s@lambda", false, { Event::START, Event::STOP, Event::PAUSE, Event::RESUME }); acts (d.ops, "s@sp", false, { Event::START, Event::STOP, Event::ABORT });
  d.ops.push_back (A ("s@sq", Event::START)); d.ops.push_back (A ("s1@lambda", Event::STOP)); d.ops.push_back (A ("s2@lambda", Event::STOP));
  d.ops.push_back (T (1.5)); d.ops.push_back (A ("s2@lambda", Event::START)); d.ops.push_back (A ("s3@lambda", Event::START));
  d.depth = TH ? 3 : 2; docs (sp, d);
  // components that refer to media declared elsewhere
  DocFam r = d; r.name = "components that refer to other media"; r.both = true; r.ndocs = 3 * 3 * 3 * 2;
  r.mk = [] (uint64_t i) { Dec q (i); const char *vv[] = { "1", "2", "0" }; S v = vv[q.next (3)]; unsigned df = q.next (3), pt = q.next (3), in = q.next (2);
    S h = "<ruleBase><rule id='r1' var='v' comparator='eq' value='1'/><rule id='r2' var='v' comparator='eq' value='2'/></ruleBase>";
    S inst = in ? " instance='instSame'" : "";
    return ncl ("<port id='p' component='k'/><port id='pc' component='c'/>" + media ("k") + "<media id='st' type='application/x-ginga-settings'><property name='v' value='" + v + "'/></media>" + media ("b1", "1s", "<area id='a' begin='0.5s'/>") + media ("l1") + media ("l2")
      + "<context id='c'><port id='q' component='b2'/>" + media ("b2") + "</context>"
      + "<switch id='s'><switchPort id='sp'>" + (pt == 0 ? "<mapping component='s1'/><mapping component='s2'/>" : pt == 1 ? "<mapping component='s1' interface='a'/>" : "<mapping component='s2'/><mapping component='s3'/>") + "</switchPort>"
      + "<bindRule constituent='s1' rule='r1'/><bindRule constituent='s2' rule='r2'/>" + (df ? S ("<defaultComponent component='s") + (df == 1 ? "3" : "1") + "'/>" : S ())
      + "<media id='s1' refer='b1'" + inst + "/><media id='s2' refer='b2'" + inst + "/>" + media ("s3") + "</switch>"
      + link ("onEnd_start", "s", "", { { "l1", "" } }) + link ("onBegin_start", "s", "sp", { { "l2", "" } }) + link ("onEnd_stop", "b1", "", { { "l2", "" } }), h + conns ()); };
  r.ops.clear ();
  acts (r.ops, "s@lambda", false, ALL5); acts (r.ops, "s@sp", false, { Event::START, Event::STOP });
  for (const char *x : { "b1@lambda", "b2@lambda" }) acts (r.ops, x, false, { Event::START, Event::STOP, Event::ABORT, Event::PAUSE });
  r.ops.push_back (A ("c@lambda", Event::STOP)); r.ops.push_back (A ("__settings__.v", Event::START, "2")); r.ops.push_back (T (1.5));
  r.depth = TH ? 4 : 2; docs (sp, r);
  // variables changing while the switch plays
  Scn s; s.name = "variables set between selections"; s.flags = C_ORDER;
  s.text = d.mk (0 + 8 * (1 + 3 * (1 + 6 * 1)));
  s.text.replace (s.text.find ("<media id='st'"), 0, "");
  s.pre = { T (0) };
  acts (s.ops, "s@lambda", false, ALL5); acts (s.ops, "s@sp", false, ALL5); acts (s.ops, "s@sq", false, { Event::START, Event::STOP });
  s.ops.push_back (A ("s2@lambda", Event::STOP)); s.ops.push_back (A ("s2@lambda", Event::PAUSE)); s.ops.push_back (A ("s1@lambda", Event::ABORT)); s.ops.push_back (A ("s3@lambda", Event::STOP)); s.ops.push_back (A ("s2@a", Event::STOP));
  s.ops.push_back (T (1)); s.ops.push_back (A ("__settings__.v", Event::START, "1")); s.ops.push_back (A ("__settings__.v", Event::START, "2"));
  graph (sp, s, 10, 1, B (18000, 300000));
  s.text = d.mk (1 + 8 * (1 + 3 * (5 + 6 * 3))); s.name += " (second document)"; graph (sp, s, 10, 1, B (18000, 300000));
}

// ---- C09: attributions
static void c09 (Spec &sp)
{
  DocFam d; d.name = "value form x duration x target x observers"; d.flags = C_ORDER; d.both = false;
  static const char *val[] = { "5", "$m.y", "$st.g", "$nobody.x", "$m", "", "$st.sys.g", "$m.none", "$.y", " $m.y", "a$m.y", "$m.y.z" }, *dur[] = { "", "0s", "1s", "2.5s", "$st.t" }, *tg[] = { "m", "c", "st", "z" };
  d.ndocs = 12 * 5 * 4 * 2;
  d.mk = [] (uint64_t i) { Dec q (i); S v = val[q.next (12)], du = dur[q.next (5)], t = tg[q.next (4)]; unsigned ob = q.next (2);
    S h = S ("<connectorBase><causalConnector id='kset'><simpleCondition role='onBegin'/><simpleAction role='set' value='$v'") + (du == "" ? "" : " duration='$du'") + "/></causalConnector>"
      "<causalConnector id='ea'><simpleCondition role='onEndAttribution'/><simpleAction role='start'/></causalConnector>"
      "<causalConnector id='ba'><simpleCondition role='onBeginAttribution'/><simpleAction role='stop'/></causalConnector>"
      "<causalConnector id='ch'><simpleCondition role='onEndAttribution'/><simpleAction role='set' value='$v'/></causalConnector></connectorBase>";
    S P = "<property name='x' value='0'/><property name='y' value='9'/>";
    return ncl ("<port id='p' component='m'/><port id='pc' component='c'/><port id='pk' component='k'/>" + media ("k") + media ("m", "", P) + media ("z", "", P) + media ("o") +
      "<media id='st' type='application/x-ginga-settings'><property name='x' value='0'/><property name='g' value='gg'/><property name='sys.g' value='dotted'/><property name='t' value='1s'/></media>"
      "<context id='c'>" + P + "<port id='q' component='n'/>" + media ("n") + "</context>"
      "<link xconnector='kset'>" + lparam ("v", v) + lparam ("du", du) + "<bind role='onBegin' component='k'/><bind role='set' component='" + t + "' interface='x'/></link>"
      + (ob ? "<link xconnector='ea'><bind role='onEndAttribution' component='" + t + "' interface='x'/><bind role='start' component='o'/></link><link xconnector='ch'>" + lparam ("v", "$" + t + ".x") + "<bind role='onEndAttribution' component='" + t + "' interface='x'/><bind role='set' component='m' interface='y'/></link>"
            : "<link xconnector='ba'><bind role='onBeginAttribution' component='" + t + "' interface='x'/><bind role='stop' component='k'/></link>"), h); };
  d.ops = { T (1), T (0), T (2), A ("m.x", Event::START, "7"), A ("z.x", Event::START, "8"), A ("st.x", Event::START, "$m.x"), A ("m.x", Event::STOP), A ("k@lambda", Event::STOP), A ("k@lambda", Event::START), A ("z@lambda", Event::START), A ("m@lambda", Event::PAUSE), A ("c@lambda", Event::STOP) };
  // the settings object is known by its real id
  for (auto &o : d.ops) if (o.s == "st.x") o.s = "__settings__.x";
  d.pre = { T (0) }; d.depth = TH ? 4 : 2; docs (sp, d);
  Scn s; s.name = "interleaved attributions"; s.flags = C_ORDER; s.text = d.mk (1 + 12 * (2 + 5 * (0 + 4 * 1))); s.pre = { T (0) }; s.ops = d.ops;
  for (const char *e : { "m@lambda", "z@lambda", "c@lambda", "__settings__@lambda" }) acts (s.ops, e, false, ALL5);
  acts (s.ops, "c.x", false, { Event::START, Event::STOP, Event::ABORT });
  s.depth = TH ? 3 : 2; add (sp, s); graph (sp, s, 8, 1, B (40000, 400000));
  s.text = d.mk (2 + 12 * (3 + 5 * (1 + 4 * 1))); s.name += " (second document)"; graph (sp, s, 8, 1, B (30000, 300000));
}

// ---- C10: keys and selections
static void c10 (Spec &sp)
{
  static const char *key[] = { "", "RED", "ENTER", "CURSOR_UP", "$kp", "$undefined" };
  DocFam d; d.name = "two selection links (key x target) x focus x key histories"; d.flags = C_ORDER; d.both = true; d.ndocs = 6 * 6 * 4;
  d.mk = [] (uint64_t i) { Dec q (i); S k1 = key[q.next (6)], k2 = key[q.next (6)]; unsigned fo = q.next (4);
    auto kk = [] (const S &id, const S &k, const S &role, const S &extra) { return "<causalConnector id='" + id + "'><connectorParam name='kp'/><simpleCondition role='" + extra + "'" + (k == "" ? "" : " key='" + k + "'") + "/><simpleAction role='" + role + "'" + (role == "set" ? " value='1'" : "") + "/></causalConnector>"; };
    S h = "<connectorBase>" + kk ("s1", k1, "start", "onSelection") + kk ("s2", k2, "stop", "onSelection") + kk ("e1", k1, "set", "onEndSelection") + "</connectorBase>";
    auto f = [&] (unsigned b) { return fo & b ? "<property name='focusIndex' value='" + std::to_string (b) + "'/>" : S (); };
    S par = "<linkParam name='kp' value='GREEN'/>";
    return ncl ("<port id='p' component='m1'/><port id='p2' component='m2'/>" + media ("m1", "", f (1) + "<property name='x' value='0'/>") + media ("m2", "", f (2)) + media ("t") + media ("v", "3s") +
      "<link xconnector='s1'>" + par + "<bind role='onSelection' component='m1'/><bind role='start' component='t'/></link>"
      "<link xconnector='s2'>" + par + "<bind role='onSelection' component='m2'/><bind role='stop' component='t'/></link>"
      "<link xconnector='e1'>" + par + "<bind role='onEndSelection' component='m1'/><bind role='set' component='m1' interface='x'/></link>", h); };
  d.pre = { T (0) };
  d.ops = { K ("RED"), K ("RED", false), K ("ENTER"), K ("ENTER", false), K ("CURSOR_UP"), K ("GREEN"), K ("GREEN", false), T (0), A ("m1@lambda", Event::STOP), A ("m1@lambda", Event::START), A ("m2@lambda", Event::PAUSE) };
  d.depth = TH ? 4 : 2; docs (sp, d);
  // keys that begin alike, and several selections of one object for one key
  DocFam e; e.name = "keys that begin alike, several links on one object"; e.flags = C_ORDER; e.both = true; static const char *like[] = { "1", "10", "", "ENTER", "E", "1 " }; e.ndocs = 6 * 6 * 6 * 3;
  e.mk = [] (uint64_t i) { Dec q (i); S k[3]; for (auto &x : k) x = like[q.next (6)]; unsigned fo = q.next (3); S h = "<connectorBase>", ln, ms;
    for (unsigned j = 0; j < 3; j++)
      {
        h += fmt ("<causalConnector id='s%u'><simpleCondition role='%s'", j, j == 1 ? "onEndSelection" : "onSelection") + (k[j] == "" ? S () : " key='" + k[j] + "'") + "/><simpleAction role='start'/></causalConnector>";
        ln += fmt ("<link xconnector='s%u'><bind role='%s' component='%s'/><bind role='start' component='t%u'/></link>", j, j == 1 ? "onEndSelection" : "onSelection", j == 2 && fo == 2 ? "m2" : "m1", j); ms += media (fmt ("t%u", j));
      }
    return ncl (S ("<port id='p' component='m1'/><port id='p2' component='m2'/>") + media ("m1", "", fo == 0 ? "" : "<property name='focusIndex' value='1'/>") + media ("m2", "", fo == 1 ? "" : "<property name='focusIndex' value='2'/>") + ms + ln, h + "</connectorBase>"); };
  e.pre = { T (0), T (0) };
  e.ops = { K ("1"), K ("10"), K ("1", false), K ("ENTER"), K ("ENTER", false), K ("E"), K (""), A ("__settings__.service.currentFocus", Event::START, "2"), T (0), A ("m1@lambda", Event::STOP) };
  e.depth = TH ? 3 : 2; docs (sp, e);
  DocFam f = e; f.name = "several links on one object, focus changing between presses"; f.ndocs = 16;
  f.mk = [mk = e.mk] (uint64_t i) { return mk ((i & 1 ? 3 : 2) + 6 * (i & 2 ? 3 : 2) + 36 * (i & 4 ? 3 : 2) + 216 * (i & 8 ? 2 : 1)); };
  f.ops = { K ("ENTER"), K ("ENTER", false), A ("__settings__.service.currentFocus", Event::START, "1"), A ("__settings__.service.currentFocus", Event::START, "2"), T (0) };
  f.depth = TH ? 7 : 5; docs (sp, f);
  Scn s; s.name = "long key histories"; s.flags = C_ORDER; s.text = d.mk (1 + 6 * (0 + 6 * 3)); s.pre = { T (0), T (0) }; s.ops = d.ops; s.ops.push_back (A ("__settings__.service.currentFocus", Event::START, "2")); s.ops.push_back (K ("CURSOR_UP", false));
  s.depth = TH ? 5 : 3; add (sp, s); graph (sp, s, 10, 1, B (25000, 200000));
}

// ---- C11: focus
static void c11 (Spec &sp)
{
  static const char *fi[] = { "", "1", "2", "10", "b" };
  DocFam d; d.name = "focus indexes x navigation x link-made changes"; d.flags = 0; d.both = true; d.ndocs = 5 * 5 * 5 * 4;
  d.mk = [] (uint64_t i) { Dec q (i); S f[3]; for (auto &x : f) x = fi[q.next (5)]; unsigned v = q.next (4); S du = v == 3 ? " duration='1s'" : ""; if (v == 3) v = 1;
    auto pr = [] (const S &n, const S &val) { return val == "" ? S () : "<property name='" + n + "' value='" + val + "'/>"; };
    S h = "<connectorBase><causalConnector id='b'><simpleCondition role='onBegin'/><simpleAction role='set' value='2'" + du + "/></causalConnector>"
      "<causalConnector id='a'><simpleCondition role='onBeginAttribution'/><simpleAction role='start'/></causalConnector></connectorBase>";
    return ncl ("<port id='p' component='m1'/><port id='p2' component='m2'/>" + media ("m1", "", pr ("focusIndex", f[0]) + pr ("moveDown", f[1]) + pr ("moveRight", "77") + pr ("moveLeft", v == 2 ? f[2] : S ()))
      + media ("m2", "", pr ("focusIndex", f[1]) + pr ("moveUp", f[0]) + pr ("moveDown", f[2])) + media ("m3", "2s", pr ("focusIndex", f[2]) + pr ("moveUp", f[0])) +
      "<media id='st' type='application/x-ginga-settings'>" + pr ("service.currentFocus", v ? f[1] : S ()) + "<property name='a' value=''/></media>"
      + (v == 1 ? "<link xconnector='b'><bind role='onBegin' component='m3'/><bind role='set' component='st' interface='service.currentFocus'/></link>" : S ())
      + (v == 2 ? "<link xconnector='a'><bind role='onBeginAttribution' component='st' interface='service.currentFocus'/><bind role='start' component='m3'/></link>" : S ()), h); };
  d.pre = { T (0) };
  d.ops = { K ("CURSOR_UP"), K ("CURSOR_DOWN"), K ("CURSOR_LEFT"), K ("CURSOR_RIGHT", true), T (0), A ("m1@lambda", Event::STOP), A ("m3@lambda", Event::START), A ("__settings__.service.currentFocus", Event::START, "10") };
  d.depth = TH ? 4 : 2; docs (sp, d);
  Scn s; s.name = "focus histories"; s.text = d.mk (1 + 5 * (2 + 5 * (3 + 5 * 1))); s.pre = { T (0) }; s.ops = d.ops;
  for (const char *e : { "m1@lambda", "m2@lambda" }) acts (s.ops, e, false, { Event::START, Event::STOP, Event::PAUSE, Event::RESUME });
  s.ops.push_back (K ("CURSOR_DOWN", false)); s.ops.push_back (A ("__settings__.service.currentFocus", Event::START, "")); s.ops.push_back (K ("ENTER"));
  s.depth = TH ? 5 : 3; add (sp, s);
  graph (sp, s, 12, 1, B (30000, 300000));
  s.name += " (second document)"; s.text = d.mk (1 + 5 * (2 + 5 * (1 + 5 * 2))); graph (sp, s, 12, 1, B (30000, 300000));
}

// ---- C21: refer
static void c21 (Spec &sp)
{
  DocFam d; d.name = "references x instance x links in every context"; d.flags = C_ORDER; d.both = TH; d.ndocs = 5 * 5 * 3;
  d.mk = [] (uint64_t i) { Dec q (i); S k = cn (q.next (5), q.next (5)); unsigned v = q.next (3), in = (i + i / 5) % 2;
    S inst = in ? " instance='instSame'" : "";
    S r = "<media id='r' refer='m'" + inst + "/>";
    return ncl ("<port id='p' component='m'/><port id='pk' component='c'/><port id='p3' component='kk'/>" + media ("kk") + media ("m", v == 2 ? "2s" : "", "<property name='x' value='0'/><area id='a' begin='1s'/>") + (v == 1 ? r + link (k, "r", "", { { "o", "" } }) : S ()) + media ("o") +
      "<context id='c'><port id='q' component='n'/>" + media ("n") + media ("n2") + (v != 1 ? r : "") + (v != 1 ? link (k, "r", "", { { "n", "" }, { "n2", "" } }) + link ("onBegin_start", "n2", "", { { "r", "" } }) : S ()) + "</context>"
      + link (k, "m", "", { { "o", "" } }), conns ()); };
  auto same = FN ("look the references up", [] (Drive &dr) -> S {
    const S &t = dr.text ();
    for (size_t p = 0; (p = t.find ("<media id='", p)) != S::npos; )
      {
        p += 11; size_t q = t.find ("'", p), e = t.find (">", p), r = t.find (" refer='", p);
        if (r > e) continue;
        r += 8;
        S x = t.substr (p, q - p), y = t.substr (r, t.find ("'", r) - r);
        auto *doc = dr.fmt ()->getDocument ();
        Object *o = doc->getObjectByIdOrAlias (x), *u = doc->getObjectByIdOrAlias (y);
        if (!u || o != u) return x + " is not the object " + y;
      }
    return ""; });
  d.pre = { same, T (0) };
  acts (d.ops, "m@lambda", false, ALL5); d.ops.push_back (A ("n2@lambda", Event::START)); d.ops.push_back (A ("c@lambda", Event::STOP)); d.ops.push_back (A ("c@lambda", Event::START)); d.ops.push_back (A ("c@lambda", Event::PAUSE)); d.ops.push_back (T (1));
  d.depth = TH ? 4 : 3; docs (sp, d);

  // two references in two contexts, with interfaces of their own, used by links and ports of both
  DocFam e; e.name = "two references with interfaces of their own, in two contexts"; e.flags = C_ORDER; e.both = TH; e.ndocs = 5 * 5 * 3 * 3;
  e.mk = [] (uint64_t i) { Dec q (i); S k = cn (q.next (5), q.next (5)); unsigned v = q.next (3), w = q.next (3);
    S h = conns (); h.insert (h.find ("</connectorBase>"), "<causalConnector id='xs'><simpleCondition role='onEndAttribution'/><simpleAction role='set' value='$v'/></causalConnector><causalConnector id='bs'><simpleCondition role='onBegin'/><simpleAction role='set' value='5'/></causalConnector>");
    S r1 = "<media id='r1' refer='m'><area id='a1' begin='0.5s' end='1.5s'/><property name='p1' value='1'/></media>", r2 = "<media id='r2' refer='m' instance='instSame'><area id='a2' begin='1s'/><property name='x' value='3'/><property name='p2' value='2'/></media>";
    S cif[] = { "", "a1", "a" };
    S M = media ("m", v == 2 ? "2s" : "", "<property name='x' value='0'/><area id='a' begin='1s'/>");
    return ncl ("<port id='p' component='m'/><port id='pc' component='c'/><port id='pd' component='d'/>" + (w == 2 ? S () : M) + media ("o")
      + "<context id='c'><port id='q' component='n'/><property name='y' value='0'/>" + media ("n") + r1 + (w ? "<media id='r3' refer='m'><property name='x3' value='3'/></media>" : "") + link (k, w == 1 ? "r3" : "r1", cif[v], { { "n", "" } })
        + "<link xconnector='xs'>" + lparam ("v", w ? "$r3.x" : "$r1.x") + "<bind role='onEndAttribution' component='r1' interface='x'/><bind role='set' component='c' interface='y'/></link></context>"
      + "<context id='d'><port id='q2' component='n2'/>" + media ("n2") + media ("n3") + (w ? r2 + link (k, "r2", "", { { "n2", "" } }) + link ("onBegin_start", "r2", "a2", { { "n3", "" } })
        + "<link xconnector='bs'><bind role='onBegin' component='n3'/><bind role='set' component='r2' interface='x'/></link>" : link ("onBegin_start", "n2", "", { { "n3", "" } })) + "</context>" + (w == 2 ? M : S ())
      + link (k, "m", "", { { "o", "" } }), h); };
  e.pre = { same, T (0) };
  e.ops = d.ops; e.ops.push_back (A ("m.x", Event::START, "7")); e.ops.push_back (A ("m@a1", Event::START)); e.ops.push_back (A ("d@lambda", Event::PAUSE)); e.ops.push_back (A ("n3@lambda", Event::START)); e.ops.push_back (T (0.5));
  e.depth = TH ? 3 : 2; docs (sp, e);
  // references to the settings object, before and after it, from two contexts
  DocFam g; g.name = "references to the settings object"; g.flags = C_ORDER; g.both = TH; g.ndocs = 3 * 5 * 2;
  g.mk = [] (uint64_t i) { Dec q (i); unsigned v = q.next (3); static const char *val[] = { "5", "$st.x", "$rs.x", "$rs.y", "$rs.service.currentFocus" }; S vv = val[q.next (5)]; unsigned in = q.next (2);
    S h = conns (); h.insert (h.find ("</connectorBase>"), "<causalConnector id='bs'><simpleCondition role='onBegin'/><simpleAction role='set' value='$v'/></causalConnector><causalConnector id='ea'><simpleCondition role='onEndAttribution'/><simpleAction role='start'/></causalConnector>");
    S st = "<media id='st' type='application/x-ginga-settings'><property name='x' value='0'/><property name='service.currentFocus' value='9'/></media>";
    S rs = S ("<media id='rs' refer='st'") + (in ? " instance='instSame'" : "") + "><property name='y' value='4'/></media>";
    S at = "<link xconnector='bs'>" + lparam ("v", vv) + "<bind role='onBegin' component='n'/><bind role='set' component='rs' interface='x'/></link><link xconnector='ea'><bind role='onEndAttribution' component='rs' interface='x'/><bind role='start' component='n2'/></link>";
    return ncl ("<port id='p' component='m'/><port id='pc' component='c'/>" + media ("m") + media ("o") + (v == 0 ? st : S ())
      + "<context id='c'><port id='q' component='n2'/>" + rs + media ("n") + media ("n2", "1s") + at + "</context>" + (v == 1 ? st : S ())
      + (v == 2 ? "<context id='d'><port id='qz' component='z'/>" + media ("z") + st + "</context>" : S ())
      + (v == 2 ? S () : "<link xconnector='ea'><bind role='onEndAttribution' component='st' interface='x'/><bind role='start' component='o'/></link>"), h); };
  g.pre = { same, T (0) };
  for (const char *x : { "n@lambda", "c@lambda", "o@lambda" }) acts (g.ops, x, false, { Event::START, Event::STOP });
  for (const char *x : { "__settings__.x", "__settings__.y" }) { g.ops.push_back (A (x, Event::START, "8")); g.ops.push_back (A (x, Event::START, "$rs.x")); }
  g.ops.push_back (T (1)); g.ops.push_back (A ("c@lambda", Event::PAUSE));
  g.depth = TH ? 4 : 3; docs (sp, g);
}

int main (int argc, char **argv)
{
  S prop = argc > 1 ? argv[1] : "";
  Spec sp; sp.property = prop; sp.level = "model_checking";
  sp.rule = "every operation sequence over the family's alphabet up to its depth, from a fresh presentation, for both object allocation orders; non-trivial when at least one operation took effect";
  if (prop == "C01") c01 (sp);
  else if (prop == "C02") c02 (sp);
  else if (prop == "C03") { c03 (sp); c03b (sp); }
  else if (prop == "C04") c04 (sp);
  else if (prop == "C05") c05 (sp);
  else if (prop == "C06") c06 (sp);
  else if (prop == "C08") c08 (sp);
  else if (prop == "C09") c09 (sp);
  else if (prop == "C10") c10 (sp);
  else if (prop == "C11") c11 (sp);
  else if (prop == "C21") c21 (sp);
  else if (prop == "C25")
    {
      LITE = vf::thorough () ? 30000 : 600;
      sp.rule = "the documents and operation sequences of the playback checks, depths reduced until a family has at most " + std::to_string (LITE) + " cases where its depth allows; every execution is cut off by destroying the player, and is repeated with fresh memory filled with other bytes";
      c01 (sp); c02 (sp); c03 (sp); c03b (sp); c04 (sp); c05 (sp); c06 (sp); c08 (sp); c09 (sp); c10 (sp); c11 (sp); c21 (sp);
      // families that are large because of their documents: every 5th, 7th, 11th or 13th of them, so that each value of each part of a document occurs
      if (!vf::thorough ())
        for (auto &f : sp.families)
          for (uint64_t k : { 5, 7, 11, 13 })
            if (f.n > LITE && (f.n / k <= LITE || k == 13))
              {
                vf::thin (f, k, "document");
                break;
              }
    }
  else { fprintf (stderr, "unknown property\n"); return 2; }
  return vf::run (sp, argc, argv);
}
