// C16: a document split over imported files against the same document written
// inline.  Included by h_parse.cpp.
#include "Formatter.h"
#include <sys/stat.h>
#include <unistd.h>
#include <limits.h>

static const char *D_IMPORT = R"(<ncl id="n"><head>
<ruleBase id="ub"><rule id="u1" var="v" comparator="eq" value="1"/><compositeRule id="u2" operator="or"><rule id="u3" var="v" comparator="gt" value="1"/><rule id="u4" var="u" comparator="eq" value="z"/></compositeRule></ruleBase>
<transitionBase id="tb"><transition id="t1" type="barWipe" dur="2s"/><transition id="t2" type="fade"/></transitionBase>
<regionBase id="gb"><region id="g1" left="10%" top="20" width="50%" height="30%" zIndex="2"><region id="g2" right="10%" width="40%"/></region><region id="g3"/></regionBase>
<descriptorBase id="db"><descriptor id="d1" region="g2" explicitDur="5s" transIn="t1"><descriptorParam name="transparency" value="50%"/></descriptor><descriptor id="d2" transOut="t2" focusIndex="1"/></descriptorBase>
<connectorBase id="cb"><causalConnector id="k1"><connectorParam name="d"/><compoundCondition operator="and"><simpleCondition role="onBegin"/><assessmentStatement comparator="eq"><attributeAssessment role="t"/><valueAssessment value="1"/></assessmentStatement></compoundCondition><simpleAction role="start" delay="$d"/></causalConnector>
<causalConnector id="k2"><simpleCondition role="onEnd"/><simpleAction role="set" value="$v"/></causalConnector></connectorBase></head>
<body id="b"><property name="v" value="1"/><port id="p" component="m"/><port id="p2" component="s"/><port id="p3" component="st" interface="v"/>
<media id="m" descriptor="d1"><area id="a" begin="1s" end="2s"/></media><media id="m2" descriptor="d2"/><media id="st" type="application/x-ginga-settings"><property name="v" value="1"/></media>
<switch id="s"><bindRule constituent="x" rule="u1"/><bindRule constituent="y" rule="u2"/><media id="x"/><context id="y"><port id="q" component="z"/><media id="z" descriptor="d1"/></context></switch>
<link xconnector="k1"><linkParam name="d" value="1s"/><bind role="onBegin" component="m" interface="a"/><bind role="t" component="b" interface="v"/><bind role="start" component="m2"/></link>
<link xconnector="k2"><bind role="onEnd" component="m"/><bind role="set" component="st" interface="v"><bindParam name="v" value="2"/></bind></link>
</body></ncl>)";

struct Place { int r = 0, c = 0, l = 0; bool onefile = false, rootid = false; int path = 0, how = 0; };
static const char *RC[] = { "inline", "imported", "imported twice over", "half imported" };
static const char *LL[] = { "inline", "imported with the descriptors", "imported twice over with the descriptors", "regions imported by the descriptors' file", "regions imported", "transitions imported", "transitions and regions imported by the descriptors' file" };
static const char *PP[] = { "same directory", "subdirectory", "parent directory", "absolute path", "file URI", "./ and ..", "odd file name", "relative inner path" };
static const char *HH[] = { "parsed from an absolute path", "parsed from a relative path", "parsed from memory" };
static S show (const Place &p)
{ return S ("rules ") + RC[p.r] + ", connectors " + RC[p.c] + ", layout " + LL[p.l] + (p.onefile ? ", one file" : "") + (p.rootid ? ", files have ids" : "") + ", " + PP[p.path] + ", " + HH[p.how]; }

static void add_prefix (El &e, const S &pre)
{
  for (auto &a : e.at) if (a.first == "id" || (e.tag == "descriptor" && (a.first == "region" || a.first == "transIn" || a.first == "transOut"))) a.second = pre + a.second;
  for (auto &k : e.kids) add_prefix (k, pre);
}
static El *head_of (El &r) { for (auto &k : r.kids) if (k.tag == "head") return &k; return nullptr; }
static S group_prefix (const S &tag, const Place &p)
{
  static const char *one[] = { "", "A#", "A#B#", "" };
  S n = tag == "ruleBase" ? one[p.r] : tag == "connectorBase" ? one[p.c] : "";
  if (tag == "ruleBase") return n == "" ? "" : "U" + n;
  if (tag == "connectorBase") return n == "" ? "" : "K" + n;
  if (tag == "descriptorBase") return p.l == 0 || p.l == 4 || p.l == 5 ? "" : p.l == 2 ? "LA#LB#" : "LA#";
  if (tag == "regionBase") return p.l == 1 ? "LA#" : p.l == 2 ? "LA#LB#" : p.l == 3 || p.l == 6 ? "LA#GB#" : p.l == 4 ? "GA#" : "";
  if (tag == "transitionBase") return p.l == 1 || p.l == 3 ? "LA#" : p.l == 2 ? "LA#LB#" : p.l == 5 ? "TA#" : p.l == 6 ? "LA#TB#" : "";
  return "";
}
// renames the ids (and the references to them) as the imports will
static El inlined (El r, const Place &p)
{
  El *h = head_of (r); if (!h) return r;
  std::map<S, S> ren[3]; // rules, connectors, descriptors
  std::map<S, S> in;     // regions, transitions
  bool db = false; for (auto &b : h->kids) db |= b.tag == "descriptorBase";
  for (auto &b : h->kids)
    {
      S pre = group_prefix (b.tag, p); bool lay = b.tag == "descriptorBase" || b.tag == "regionBase" || b.tag == "transitionBase";
      if (lay && !db && p.l != 4 && p.l != 5) pre = "";
      bool half = (b.tag == "ruleBase" && p.r == 3) || (b.tag == "connectorBase" && p.c == 3);
      for (auto &k : b.kids)
        {
          if (half && &k == &b.kids[0]) continue;
          S q = half ? b.tag == "ruleBase" ? "UA#" : "KA#" : pre;
          if (q == "") continue;
          std::vector<El *> v; gram::walk (k, v);
          for (auto e : v) if (e->has ("id"))
            {
              S id = e->val ("id"), nid = id == "" ? id : q + id;
              if (e->tag == "rule" || e->tag == "compositeRule") ren[0].insert ({ id, nid });
              if (e->tag == "causalConnector") ren[1].insert ({ id, nid });
              if (e->tag == "descriptor") ren[2].insert ({ id, nid });
              if (e->tag == "region" || e->tag == "transition") in.insert ({ e->tag + " " + id, nid });
              e->set ("id", nid);
            }
        }
      if (pre != "" && !half && b.val ("id") != "") b.set ("id", pre + b.val ("id"));
    }
  std::vector<El *> v; gram::walk (r, v);
  for (auto e : v)
    {
      auto sub = [&] (const char *a, std::map<S, S> &m, const S &kind = "") { if (const S *x = e->get (a)) { auto it = m.find (kind + *x); if (it != m.end ()) e->set (a, it->second); } };
      if (e->tag == "bindRule") sub ("rule", ren[0]);
      if (e->tag == "link") sub ("xconnector", ren[1]);
      if (e->tag == "media") sub ("descriptor", ren[2]);
      if (e->tag == "descriptor") { sub ("region", in, "region "); sub ("transIn", in, "transition "); sub ("transOut", in, "transition "); }
    }
  return r;
}
static El mk (const S &t, std::vector<std::pair<S, S>> at = {}) { El e; e.tag = t; e.at = at; return e; }
struct Files { std::map<S, S> f; S main; };         // path relative to the scratch directory -> text
// the plain document cut into files
static Files cut (El r, const Place &p, const S &dir)
{
  Files out; std::map<S, El> file; std::vector<S> order;
  auto doc = [&] (const S &n) -> El & { if (!file.count (n)) { El e = mk ("ncl"); if (p.rootid) e.at.push_back ({ "id", "file-" + n }); e.kids.push_back (mk ("head")); file[n] = e; order.push_back (n); } return file[n]; };
  auto base = [&] (const S &n, const S &tag) -> El & { auto &h = doc (n).kids[0]; for (auto &k : h.kids) if (k.tag == tag) return k; h.kids.push_back (mk (tag)); return h.kids.back (); };
  static const char *md[] = { "", "", "d/", "", "", "e/", "", "" };      // where the main file is
  static const char *sd[] = { "", "s/", "", "s/", "s/", "s/", "o o/", "s/t/" }; // where the imported files are
  S maindir = md[p.path], subdir = sd[p.path];
  auto fname = [&] (const S &n) { return p.path == 6 ? "f %41#\xc3\xa7 " + n + ".ncl" : n + ".ncl"; };
  auto uri = [&] (const S &n, bool inner) {
    S rel = subdir + fname (n);
    if (inner && p.path != 7) return p.path == 3 ? dir + "/" + rel : p.path == 4 ? "file://" + dir + "/" + rel : p.path == 5 ? "../" + rel : fname (n);
    if (inner) return "../t/" + fname (n);
    switch (p.path) { case 2: return "../" + rel; case 3: return dir + "/" + rel; case 4: return "file://" + dir + "/" + rel; case 5: return "./../" + rel; default: return rel; } };
  auto imp = [&] (const S &alias, const S &n, bool inner = false) { return mk ("importBase", { { "alias", alias }, { "documentURI", uri (n, inner) } }); };
  auto F = [&] (const char *n) { return p.onefile ? S (n[1] == '2' ? "f2" : "f1") : S (n); };
  El *h = head_of (r);
  if (h)
    {
      bool db = false; for (auto &b : h->kids) db |= b.tag == "descriptorBase";
      std::vector<El> kids;
      int ndb = 0;
      auto simple = [&] (El &b, int how, const char *f1, const char *f2, const S &al) {
        S t = b.tag;
        if (how == 0) { kids.push_back (b); return; }
        if (how == 3)
          {
            El m = b; if (m.kids.size () > 1) m.kids.resize (1);
            if (b.kids.size () > 1) { doc (F (f1)).kids[0].kids.push_back (mk (t)); El &x = doc (F (f1)).kids[0].kids.back (); x.kids.assign (b.kids.begin () + 1, b.kids.end ()); m.kids.push_back (imp (al + "A", F (f1))); }
            kids.push_back (m); return;
          }
        bool first = true; for (auto &k : kids) for (auto &q : k.kids) if (q.tag == "importBase" && q.val ("alias") == al + "A") first = false;
        if (first) { El m = mk (t); m.kids.push_back (imp (al + "A", F (f1))); kids.push_back (m); }
        if (how == 2 && first) { El x = mk (t); x.kids.push_back (imp ("B", F (f2), true)); doc (F (f1)).kids[0].kids.push_back (x); }
        doc (how == 2 ? F (f2) : F (f1)).kids[0].kids.push_back (b); };
      for (auto &b : h->kids)
        {
          if (b.tag == "ruleBase") simple (b, p.r, "r1", "r2", "U");
          else if (b.tag == "connectorBase") simple (b, p.c, "c1", "c2", "K");
          else if (b.tag == "regionBase" || b.tag == "transitionBase" || b.tag == "descriptorBase")
            {
              bool D = b.tag[0] == 'd', G = b.tag[0] == 'r';
              if ((!db && p.l != 4 && p.l != 5) || p.l == 0) { kids.push_back (b); continue; }
              if (p.l == 4 || p.l == 5)
                {
                  if ((p.l == 4) == G && !D)
                    {
                      bool first = true; for (auto &k : kids) if (k.tag == b.tag) for (auto &q : k.kids) if (q.tag == "importBase") first = false;
                      if (first) { El m = mk (b.tag); m.kids.push_back (imp (G ? "GA" : "TA", F (G ? "g1" : "t1"))); kids.push_back (m); }
                      doc (F (G ? "g1" : "t1")).kids[0].kids.push_back (b);
                    }
                  else kids.push_back (b);
                  continue;
                }
              if (D && !ndb++)
                {
                  El m = mk (b.tag); m.kids.push_back (imp ("LA", F ("l1"))); kids.push_back (m);
                  if (p.l == 2) { El x = mk (b.tag); x.kids.push_back (imp ("LB", F ("l2"), true)); doc (F ("l1")).kids[0].kids.push_back (x); }
                }
              if (p.l == 1 || p.l == 2) { doc (F (p.l == 1 ? "l1" : "l2")).kids[0].kids.push_back (b); continue; }
              if (G || (p.l == 6 && !D))
                {
                  bool first = true; for (auto &k : doc (F ("l1")).kids[0].kids) if (k.tag == b.tag) first = false;
                  if (first) { El x = mk (b.tag); x.kids.push_back (imp (G ? "GB" : "TB", F (G ? "g2" : "t2"), true)); doc (F ("l1")).kids[0].kids.push_back (x); }
                  doc (F (G ? "g2" : "t2")).kids[0].kids.push_back (b);
                }
              else
                {
                  El c = b;
                  if (D) for (auto &k : c.kids)
                    {
                      auto fix = [&] (const char *a, const char *bt, const char *et, const char *pre) {
                        const S *v = k.get (a); if (!v) return;
                        for (auto &o : h->kids) if (o.tag == bt) { std::vector<El *> w; gram::walk (o, w); for (auto e : w) if (e->tag == et && e->val ("id") == *v && *v != "") { k.set (a, pre + *v); return; } } };
                      if (k.tag == "descriptor") { fix ("region", "regionBase", "region", "GB#"); if (p.l == 6) { fix ("transIn", "transitionBase", "transition", "TB#"); fix ("transOut", "transitionBase", "transition", "TB#"); } }
                    }
                  doc (F ("l1")).kids[0].kids.push_back (c);
                }
            }
          else kids.push_back (b);
        }
      // references from the main file
      El in = inlined (r, p);
      El *ih = head_of (in);
      std::vector<El *> a, c; El rb = r, ib = in;
      (void) ih;
      for (size_t i = 0; i < r.kids.size (); i++) if (r.kids[i].tag != "head") r.kids[i] = in.kids[i];
      h = head_of (r);
      if (p.l == 4 || p.l == 5)
        for (auto &k : kids) if (k.tag == "descriptorBase")
          { for (size_t i = 0, j = 0; i < ih->kids.size (); i++) if (ih->kids[i].tag == "descriptorBase") { size_t n = 0; for (auto &q : kids) { if (&q == &k) break; if (q.tag == "descriptorBase") n++; } if (j++ == n) { k = ih->kids[i]; break; } } }
      h->kids = kids;
    }
  for (auto &n : order) out.f[subdir + fname (n)] = gram::print (file[n]);
  out.main = maindir + "main.ncl"; out.f[out.main] = gram::print (r);
  return out;
}
static void put (const S &dir, const Files &f)
{
  for (auto &x : f.f)
    {
      for (size_t i = x.first.find ('/'); i != S::npos; i = x.first.find ('/', i + 1)) mkdir ((dir + "/" + x.first.substr (0, i)).c_str (), 0700);
      vf::write_file (dir + "/" + x.first, x.second);
    }
}
static S pstr (Predicate *p) { return p ? formula (p).str () : "-"; }
static S dump (Document *d)
{
  std::set<S> out;
  for (auto o : *d->getObjects ())
    {
      S s = o->getId () + " in " + (o->getParent () ? o->getParent ()->getId () : S ("-")) + " : " + o->getObjectTypeAsString ();
      std::set<S> t; for (auto &a : *o->getAliases ()) t.insert (" aka " + a.first);
      std::set<S> attr;
      for (auto e : *o->getEvents ())
        {
          Time b, n; e->getInterval (&b, &n); S k; e->getParameter ("key", &k);
          t.insert (" " + key (e).str () + fmt (" %llu-%llu ", (unsigned long long) b, (unsigned long long) n) + e->getLabel () + " " + k);
          if (e->getType () == Event::ATTRIBUTION) attr.insert (e->getId ());
        }
      for (auto &a : attr) if (a != "zOrder") t.insert (" ." + a + "='" + o->getProperty (a) + "'");
      for (auto &a : { "type", "uri", "left", "top", "width", "height", "zIndex", "explicitDur", "region" }) t.insert (S (" .") + a + "='" + o->getProperty (a) + "'");
      for (auto &x : t) s += "\n" + x;
      if (auto c = dynamic_cast<Context *> (o))
        {
          s += "\n ports:"; for (auto e : *c->getPorts ()) s += " " + key (e).str ();
          for (auto &l : *c->getLinks ()) { s += "\n link"; for (auto &q : l.first) s += "\n  when " + ::show (act (q)); for (auto &q : l.second) s += "\n  do " + ::show (act (q)); }
        }
      if (auto w = dynamic_cast<Switch *> (o))
        {
          for (auto &q : *w->getRules ()) s += "\n rule " + q.first->getId () + " if " + pstr (q.second);
          for (auto &q : *w->getSwitchPorts ()) { s += "\n port " + q.first; for (auto e : q.second) s += " " + key (e).str (); }
        }
      out.insert (s);
    }
  S r; for (auto &x : out) r += x + "\n"; return r;
}
static S table_text (const S &v)
{ std::map<S, S> t; S s; if (v == "" || !ginga::try_parse_table (v, &t)) return "'" + v + "'"; for (auto &x : t) s += x.first + "=" + x.second + ","; return s; }
static S states (Ginga *g, Document *d)
{
  std::set<S> out; S r = fmt ("%d;", (int) g->getState ());
  if (g->getState () == GINGA_STATE_STOPPED || !d) return r;
  for (auto o : *d->getObjects ()) { S s = o->getId () + fmt ("@%llu", (unsigned long long) o->getTime ()); for (auto e : *o->getEvents ()) if (e->getState () != Event::SLEEPING || e->getType () == Event::ATTRIBUTION) out.insert (key (e).str () + fmt ("%d", (int) e->getState ()) + (e->getType () == Event::ATTRIBUTION && e->getId () != "zOrder" ? table_text (o->getProperty (e->getId ())) : S ())); out.insert (s); }
  for (auto &x : out) r += x + " "; return r;
}
static std::vector<S> behaviour (const S &file)
{
  std::vector<S> v; GingaOptions go; go.width = 800; go.height = 600; go.debug = go.webservices = go.opengl = go.experimental = false; go.background = ""; Formatter f (&go); S err;
  vf::arena_begin (false); bool started = f.start (file, &err); vf::arena_end (); // objects in creation order
  if (!started) return { "refused" };
  Time t = 0, fr = 0; v.push_back (states (&f, f.getDocument ()));
  for (Time s : { 0ull, 1000000000ull, 1000000000ull, 500000000ull, 3000000000ull, 10000000000ull })
    { t += s; f.sendTick (t, s, fr++); v.push_back (states (&f, f.getDocument ())); f.sendKey ("RED", true); v.push_back (states (&f, f.getDocument ())); }
  f.stop (); return v;
}
static S tail_ (const S &m) { size_t i = m.rfind (": "); return i == S::npos ? m.substr (0, 40) : m.substr (i); }   // the message without file names
static Document *parse_main (const S &dir, const S &main, int how, S *msg)
{
  if (how == 2) { FILE *f = fopen ((dir + "/" + main).c_str (), "r"); S t; char b[65536]; size_t n; while ((n = fread (b, 1, sizeof b, f)) > 0) t.append (b, n); fclose (f); return Parser::parseBuffer (t.data (), t.size (), 800, 600, msg); }
  return Parser::parseFile (how == 0 ? dir + "/" + main : main, 800, 600, msg);
}
static S isodir ()
{
  static S d; static unsigned n = 0;
  if (d == "") { d = vf::scratch (); char b[PATH_MAX]; if (realpath (d.c_str (), b)) d = b; }
  S s = d + fmt ("/i%u", n++ % 64); mkdir (s.c_str (), 0700); return s;
}
// compares a document cut as p says with the same document inline
static void compare_cut (const El &plain, const Place &p, bool play_, Rep &rep)
{
  S dir = isodir (), msg1, msg2;
  Files f = cut (plain, p, dir);
  El in = inlined (plain, p); Files g; g.main = "inline.ncl"; g.f[g.main] = gram::print (in);
  put (dir, f); put (dir, g);
  for (auto &x : f.f) rep.say ("--- " + x.first + "\n" + x.second);
  rep.say ("--- inline\n" + g.f[g.main]);
  if (chdir (dir.c_str ())) return;
  size_t sl = f.main.find ('/'); S mdir = dir; S mrel = f.main;
  if (p.how == 2 && sl != S::npos) { mdir = dir + "/" + f.main.substr (0, sl); mrel = f.main.substr (sl + 1); if (chdir (mdir.c_str ())) return; }
  Document *a = parse_main (dir, "inline.ncl", 0, &msg1), *b = parse_main (mdir, mrel, p.how, &msg2);
  rep.steps += 2; rep.nontrivial = true; rep.state (a ? "ok" : tail_ (msg1));
  if (!a != !b) rep.fail (a ? "rejected" : "accepted", a ? "the document is accepted inline, but rejected when imported: " + msg2 : "the document is rejected inline (" + msg1 + "), but accepted when imported");
  else if (a)
    {
      S x = dump (a), y = dump (b);
      if (x != y)
        {
          size_t i = 0; while (i < x.size () && i < y.size () && x[i] == y[i]) i++;
          auto line = [&] (const S &s) { size_t q = s.rfind ('\n', i ? i - 1 : 0); q = q == S::npos ? 0 : q + 1; return s.substr (q, s.find ('\n', q) - q); };
          rep.fail ("differs", "importing instead of writing inline gives another document: inline '" + line (x) + "', imported '" + line (y) + "'");
        }
    }
  bool ok = a && b; delete a; delete b;
  if (ok && play_ && !rep.failed)
    {
      auto v = behaviour (dir + "/inline.ncl"), w = behaviour (dir + "/" + f.main); rep.steps += v.size ();
      for (size_t i = 0; i < v.size () && !rep.failed; i++) if (i >= w.size () || v[i] != w[i]) rep.fail ("behaviour", fmt ("played alike, the two differ after step %zu: inline ", i) + v[i] + " imported " + (i < w.size () ? w[i] : S ("ended")));
    }
  for (auto &x : f.f) unlink ((dir + "/" + x.first).c_str ());
}
static void bad_imports (Spec &sp, bool lite);
static void imports (Spec &sp, bool th, bool lite = false)
{
  auto root = std::make_shared<El> (gram::read (D_IMPORT)); gram::print (*root);
  auto pl = std::make_shared<std::vector<Place>> ();
  for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) for (int l = 0; l < 7; l++) for (int one = 0; one < 2; one++) for (int id = 0; id < 2; id++) for (int path = 0; path < 8; path++) for (int how = 0; how < 3; how++)
    { Place p; p.r = r; p.c = c; p.l = l; p.onefile = one; p.rootid = id; p.path = path; p.how = how;
      if (one && l == 6) continue; if (one && l == 3) continue; // these need separate files
      if (lite && (id != (r + c) % 2 || path != (r + 2 * c + 3 * l + one) % 8 || how != (r + c + l + one) % 3)) continue; // each value with each cut of a base
      pl->push_back (p); }
  sp.families.push_back ({ "every way of cutting the document into files, parsed and played", pl->size (), [=] (uint64_t i, Rep &rep) { auto &p = (*pl)[i]; rep.say (show (p)); compare_cut (*root, p, true, rep); }, [=] (uint64_t i) { return show ((*pl)[i]); } });
  // every edit, in a covering set of cuts
  auto ms = std::make_shared<std::vector<Mut>> (mutations (*root, false));
  auto cs = std::make_shared<std::vector<Place>> ();
  auto P = [&] (int r, int c, int l, bool one) { Place p; p.r = r; p.c = c; p.l = l; p.onefile = one; cs->push_back (p); };
  P (1, 1, 1, false); P (2, 2, 2, false); P (3, 3, 4, false); P (0, 0, 5, false); P (1, 2, 3, false); P (2, 1, 6, false); if (th) { P (1, 1, 1, true); P (2, 2, 2, true); P (3, 0, 0, false); P (0, 3, 3, false); }
  uint64_t n = ms->size ();
  sp.families.push_back ({ "every edit of the document, in a covering set of cuts", n * cs->size (), [=] (uint64_t i, Rep &rep) {
      El r = *root; auto &m = (*ms)[i % n]; auto &p = (*cs)[i / n]; rep.say (show (m, *root) + "; " + show (p)); if (!mutate (r, m)) return;
      std::vector<El *> v; gram::walk (r, v); for (auto e : v) if (e->tag == "importBase") return;   // nothing to write inline
      if (r.tag != "ncl") return; int nh = 0; for (auto &k : r.kids) nh += k.tag == "head"; if (nh > 1) return;
      compare_cut (r, p, false, rep); },
    [=] (uint64_t i) { return show ((*ms)[i % n], *root) + "; " + show ((*cs)[i / n]); } });
  bad_imports (sp, lite);
}
static void bad_imports (Spec &sp, bool lite)
{
  // imports that must be refused
  struct Bad { S what; std::map<S, S> f; };
  auto bad = std::make_shared<std::vector<Bad>> ();
  S k1 = "<causalConnector id='k'><simpleCondition role='onEnd'/><simpleAction role='start'/></causalConnector>";
  auto file = [] (const S &tag, const S &uri, const S &more = "") { return "<ncl><head><" + tag + ">" + (uri == "" ? S () : "<importBase alias='z' documentURI='" + uri + "'/>") + more + "</" + tag + "></head></ncl>"; };
  for (S tag : { "connectorBase", "ruleBase", "regionBase", "descriptorBase", "transitionBase" })
    {
      auto main = [&] (const S &u) { return "<ncl><head><" + tag + "><importBase alias='a' documentURI='" + u + "'/></" + tag + "></head><body/></ncl>"; };
      bad->push_back ({ "missing file", { { "main.ncl", main ("none.ncl") } } });
      bad->push_back ({ "empty URI", { { "main.ncl", main ("") } } });
      bad->push_back ({ "directory", { { "main.ncl", main ("s") }, { "s/x", "" } } });
      bad->push_back ({ "empty file", { { "main.ncl", main ("e.ncl") }, { "e.ncl", "" } } });
      bad->push_back ({ "not XML", { { "main.ncl", main ("e.ncl") }, { "e.ncl", "<ncl><head>" } } });
      bad->push_back ({ "another root", { { "main.ncl", main ("e.ncl") }, { "e.ncl", "<head><" + tag + "/></head>" } } });
      bad->push_back ({ "no head", { { "main.ncl", main ("e.ncl") }, { "e.ncl", "<ncl/>" } } });
      bad->push_back ({ "no such base", { { "main.ncl", main ("e.ncl") }, { "e.ncl", tag == "ruleBase" ? file ("connectorBase", "") : file ("ruleBase", "") } } });
      bad->push_back ({ "itself", { { "main.ncl", main ("main.ncl") } } });
      bad->push_back ({ "itself, otherwise spelled", { { "main.ncl", main ("./main.ncl") } } });
      bad->push_back ({ "itself through a directory", { { "main.ncl", main ("s/../main.ncl") }, { "s/x", "" } } });
      bad->push_back ({ "a file that imports itself", { { "main.ncl", main ("e.ncl") }, { "e.ncl", file (tag, "e.ncl") } } });
      bad->push_back ({ "a file that imports itself, otherwise spelled", { { "main.ncl", main ("e.ncl") }, { "e.ncl", file (tag, "./e.ncl") } } });
      bad->push_back ({ "a file that imports itself through a directory", { { "main.ncl", main ("s/e.ncl") }, { "s/e.ncl", file (tag, "../s/e.ncl") } } });
      bad->push_back ({ "two files that import each other", { { "main.ncl", main ("e.ncl") }, { "e.ncl", file (tag, "f.ncl") }, { "f.ncl", file (tag, "e.ncl") } } });
      bad->push_back ({ "two files that import each other from other directories", { { "main.ncl", main ("s/e.ncl") }, { "s/e.ncl", file (tag, "../t/f.ncl") }, { "t/f.ncl", file (tag, "../s/e.ncl") } } });
      bad->push_back ({ "a file that imports the main one", { { "main.ncl", main ("e.ncl") }, { "e.ncl", file (tag, "main.ncl") } } });
      bad->push_back ({ "duplicated id in the file", { { "main.ncl", main ("e.ncl") }, { "e.ncl", "<ncl><head><" + tag + " id='q'/><" + tag + " id='q'/></head></ncl>" } } });
      bad->push_back ({ "misplaced element in the file", { { "main.ncl", main ("e.ncl") }, { "e.ncl", "<ncl><head><" + tag + "><media id='q'/></" + tag + "></head></ncl>" } } });
      bad->push_back ({ "missing alias", { { "main.ncl", "<ncl><head><" + tag + "><importBase documentURI='e.ncl'/></" + tag + "></head><body/></ncl>" }, { "e.ncl", file (tag, "") } } });
      bad->push_back ({ "missing documentURI", { { "main.ncl", "<ncl><head><" + tag + "><importBase alias='a'/></" + tag + "></head><body/></ncl>" }, { "e.ncl", file (tag, "") } } });
      bad->push_back ({ "same alias, same file, twice", { { "main.ncl", "<ncl><head><" + tag + "><importBase alias='a' documentURI='e.ncl'/><importBase alias='a' documentURI='e.ncl'/></" + tag + "></head><body/></ncl>" }, { "e.ncl", "<ncl><head><" + tag + " id='q'/></head></ncl>" } } });
    }
  if (lite) { // a circle whose paths grow is only refused when they are too long: too slow here
    auto all = *bad; bad->clear (); for (auto &b : all) if (b.what.find ("otherwise spelled") == S::npos && b.what.find ("through a directory") == S::npos && b.what.find ("other directories") == S::npos) bad->push_back (b); }
  sp.families.push_back ({ "imports that must be refused", bad->size () * 3, [=] (uint64_t i, Rep &rep) {
      auto &b = (*bad)[i / 3]; Files f; f.f = b.f; f.main = "main.ncl"; S dir = isodir (), msg; put (dir, f); rep.say (b.what); for (auto &x : b.f) rep.say ("--- " + x.first + "\n" + x.second);
      if (chdir (dir.c_str ())) return;
      Document *d = parse_main (dir, "main.ncl", i % 3, &msg); rep.steps++; rep.nontrivial = true; rep.state (tail_ (msg));
      if (d) rep.fail ("bad-import", "accepted: " + b.what); else if (msg == "" || msg == "no error") rep.fail ("no-message", "rejected without a message: " + b.what);
      delete d; for (auto &x : b.f) unlink ((dir + "/" + x.first).c_str ()); },
    [=] (uint64_t i) { return (*bad)[i / 3].what + ", " + HH[i % 3]; } });
}
