// C13-C15: every document one or two edits away from base documents that use
// the whole grammar, judged by an independent reading of the NCL profile.
#include <algorithm>
#include <tuple>
#include "gram.h"
#include "drive.h"
#include "tree.h"
#include "Parser.h"
#include <libxml/xmlerror.h>
#include "Predicate.h"
#include <memory>
using namespace ginga;
using vf::Rep; using vf::Spec; using vf::Dec; using vf::fmt;
using gram::El; using gram::S; using gram::Fm;
static bool TH;

// ---- base documents ----
static const char *D_LINKS = R"(<ncl id="n" title="t"><head><connectorBase id="cb">
<causalConnector id="k1"><connectorParam name="d"/><simpleCondition role="onBegin"/><simpleAction role="start" delay="$d"/></causalConnector>
<causalConnector id="k2"><compoundCondition operator="or"><simpleCondition role="onEnd"/><simpleCondition role="onPause"/>
<compoundStatement operator="and" isNegated="true"><assessmentStatement comparator="eq"><attributeAssessment role="t1"/><valueAssessment value="$w"/></assessmentStatement>
<assessmentStatement comparator="ne"><attributeAssessment role="t1"/><attributeAssessment role="t2"/></assessmentStatement></compoundStatement></compoundCondition>
<compoundAction operator="seq"><simpleAction role="set" value="$v" duration="2s"/><simpleAction role="stop" delay="1s"/></compoundAction></causalConnector>
</connectorBase></head>
<body id="b"><property name="bp" value="0"/><port id="p1" component="m1"/><port id="p2" component="c1" interface="q1"/>
<media id="m1"><area id="a1" begin="1s" end="2s"/><property name="x" value="1"/><property name="y"/></media>
<context id="c1"><port id="q1" component="m2" interface="a2"/><property name="z" value="5"/><media id="m2"><area id="a2" label="L"/></media></context>
<link id="l1" xconnector="k1"><linkParam name="d" value="1s"/><bind role="onBegin" component="m1" interface="a1"/><bind role="start" component="c1" interface="q1"/><bind role="start" component="m1"><bindParam name="d" value="2s"/></bind></link>
<link xconnector="k2"><linkParam name="w" value="7"/><bind role="onEnd" component="m1"/><bind role="onPause" component="c1"/><bind role="t1" component="m1" interface="x"/><bind role="t2" component="c1" interface="z"/><bind role="set" component="m1" interface="y"><bindParam name="v" value="$get"/></bind><bind role="get" component="b" interface="bp"/><bind role="stop" component="m1"/></link>
</body></ncl>)";
static const char *D_SWITCH = R"(<ncl><head><ruleBase id="rb"><rule id="r1" var="v" comparator="eq" value="1"/><compositeRule id="r2" operator="or"><rule id="r3" var="v" comparator="lt" value="2"/><compositeRule id="r4" operator="not"><rule id="r5" var="u" comparator="gte" value="x"/></compositeRule></compositeRule></ruleBase>
<connectorBase><causalConnector id="k"><simpleCondition role="onBegin"/><simpleAction role="stop"/></causalConnector></connectorBase></head>
<body><port id="p" component="s" interface="sp"/><media id="m"/>
<switch id="s"><switchPort id="sp"><mapping component="a" interface="aa"/><mapping component="b"/><mapping component="c" interface="cp"/></switchPort>
<bindRule constituent="a" rule="r1"/><bindRule constituent="b" rule="r2"/><defaultComponent component="c"/>
<media id="a"><area id="aa" begin="1"/></media><switch id="b"><switchPort id="bp"><mapping component="d"/></switchPort><defaultComponent component="d"/><media id="d"/></switch>
<context id="c"><port id="cp" component="e"/><media id="e"/></context></switch>
<link xconnector="k"><bind role="onBegin" component="s" interface="sp"/><bind role="stop" component="m"/></link>
</body></ncl>)";
static const char *D_LAYOUT = R"(<ncl><head>
<regionBase id="rgb" device="x"><region id="rg1" left="10%" top="20" width="50%" height="30%" zIndex="2"><region id="rg2" right="10%" bottom="5%" width="40%" height="40%"/></region><region id="rg3" title="t"/></regionBase>
<transitionBase id="tb"><transition id="t1" type="barWipe" dur="2s"/><transition id="t2" type="fade" subtype="crossfade" fadeColor="red" direction="reverse"/></transitionBase>
<descriptorBase id="db"><descriptor id="d1" region="rg2" explicitDur="5s" transIn="t1" focusIndex="1"><descriptorParam name="transparency" value="50%"/><descriptorParam name="foo" value="bar"/></descriptor><descriptor id="d2" player="p" transOut="t2" transIn="t2"/><descriptor id="d3" region="rg1" left="7%"/></descriptorBase></head>
<body><port id="p" component="m"/><media id="m" descriptor="d1" type="text/plain"><property name="explicitDur" value="3s"/></media>
<context id="c"><port id="q" component="m2" interface="transparency"/><media id="m2" descriptor="d1"/></context><media id="m3" descriptor="d2"/><media id="m4" descriptor="d3"/></body></ncl>)";
static const char *D_REFER = R"(<ncl id="n"><head><connectorBase><causalConnector id="k"><simpleCondition role="onBegin"/><simpleAction role="set" value="1"/></causalConnector></connectorBase></head>
<body id="b"><port id="p" component="r1"/><port id="pc" component="c"/>
<media id="r1" refer="m"><area id="x1" begin="1s"/></media><media id="m"><area id="x2" begin="2s"/><property name="w" value="3"/></media>
<context id="c"><port id="q" component="r2" interface="x2"/><port id="q3" component="r3" interface="x3"/><media id="r2" refer="m"><property name="h"/></media><media id="r3" refer="late"/><media id="s2" refer="st"><property name="g" value="4"/></media>
<link xconnector="k"><bind role="onBegin" component="r2" interface="x1"/><bind role="set" component="s2" interface="v"/></link></context>
<media id="st" type="application/x-ncl-settings"><property name="v" value="0"/></media><media id="s1" refer="st"/><media id="late"><area id="x3" end="4s"/></media>
<link xconnector="k"><bind role="onBegin" component="r1" interface="x2"/><bind role="set" component="s1" interface="g"/><bind role="set" component="m" interface="h"/></link></body></ncl>)";
static const char *D_EVENTS = R"(<ncl><head><connectorBase>
<causalConnector id="k1"><connectorParam name="key"/><simpleCondition role="onSelection" key="$key"/><simpleAction role="start"/></causalConnector>
<causalConnector id="k2"><simpleCondition role="onEndSelection"/><compoundAction operator="par"><simpleAction role="pause"/><simpleAction role="mySel" eventType="selection" actionType="start" key="RED"/></compoundAction></causalConnector>
<causalConnector id="k3"><compoundCondition operator="and"><simpleCondition role="onLookAt"/><assessmentStatement comparator="gte"><attributeAssessment role="t" eventType="attribution" attributeType="nodeProperty"/><valueAssessment value="5"/></assessmentStatement></compoundCondition><simpleAction role="abort"/></causalConnector>
<causalConnector id="k4"><compoundCondition operator="or"><simpleCondition role="myAttr" eventType="attribution" transition="starts"/><simpleCondition role="onEndAttribution"/><compoundCondition operator="and" delay="1s"><simpleCondition role="onResume" min="1" max="unbounded" qualifier="or"/><compoundStatement operator="or"><assessmentStatement comparator="lt"><attributeAssessment role="t"/><valueAssessment value="$p"/></assessmentStatement><compoundStatement operator="not"><assessmentStatement comparator="gt"><valueAssessment value="a"/><attributeAssessment role="u"/></assessmentStatement></compoundStatement></compoundStatement></compoundCondition></compoundCondition><simpleAction role="resume" repeat="2" repeatDelay="1s" by="1"/></causalConnector>
</connectorBase></head><body><port id="p" component="m"/><media id="m"><property name="x" value="9"/><property name="y"/><area id="a" begin="1s"/></media><media id="n"/>
<link xconnector="k1"><bind role="onSelection" component="m"><bindParam name="key" value="GREEN"/></bind><bind role="onSelection" component="n"/><bind role="start" component="n"/></link>
<link xconnector="k2"><bind role="onEndSelection" component="m"/><bind role="pause" component="n"/><bind role="mySel" component="n"/></link>
<link xconnector="k3"><bind role="onLookAt" component="m" interface="a"/><bind role="t" component="m" interface="x"/><bind role="abort" component="n"/></link>
<link xconnector="k4"><linkParam name="p" value="3"/><bind role="myAttr" component="m" interface="x"/><bind role="onEndAttribution" component="m" interface="y"/><bind role="onResume" component="n"/><bind role="t" component="m" interface="x"/><bind role="u" component="m" interface="y"/><bind role="resume" component="n"/></link>
</body></ncl>)";
// a small document in which pairs of structural edits stay enumerable
static const char *D_SMALL = R"(<ncl><head><connectorBase><causalConnector id="k"><simpleCondition role="onEnd"/><simpleAction role="start"/></causalConnector></connectorBase></head>
<body id="b"><port id="p" component="m"/><media id="m"><area id="a" end="1s"/></media><context id="c"><port id="q" component="r"/><media id="r" refer="m"/></context><link xconnector="k"><bind role="onEnd" component="m" interface="a"/><bind role="start" component="c" interface="q"/></link></body></ncl>)";

struct Base { const char *name; const char *text; };
static const Base BASES[] = { { "links", D_LINKS }, { "switches", D_SWITCH }, { "layout", D_LAYOUT }, { "refers", D_REFER }, { "events", D_EVENTS }, { "small", D_SMALL } };
enum { NBASE = 6 };

// minimal elements of each kind, to insert
static std::map<S, S> templates ()
{
  std::map<S, S> t;
  for (auto &g : gram::grammar ())
    {
      S s = "<" + g.first;
      for (auto &a : g.second.at) if (a.second & gram::R) s += " " + a.first + "=\"" + (a.second & gram::I ? S ("new") : a.first == "comparator" ? S ("eq") : a.first == "operator" ? S ("and") : a.first == "role" ? S ("onAbort") : S ("zz")) + "\"";
      t[g.first] = s + "/>";
    }
  t["foo"] = "<foo/>";
  t["media"] = "<media id=\"new\"/>"; t["media+r"] = "<media id=\"new\" refer=\"m\"/>"; t["simpleAction"] = "<simpleAction role=\"stop\"/>";
  t["context"] = "<context id=\"new\"><media id=\"new2\"/></context>"; t["assessmentStatement"] = "<assessmentStatement comparator=\"lt\"><valueAssessment value=\"1\"/><valueAssessment value=\"2\"/></assessmentStatement>";
  t["attributeAssessment"] = "<attributeAssessment role=\"t9\"/>";
  t["media+s"] = "<media id=\"new\" type=\"application/x-ginga-settings\"/>";
  return t;
}

struct Mut { int kind; int e; int f = 0; S a, b; };
enum { DEL, DUP, SWAP, MOVE, REN, INS, ADROP, ASET, BLANK };
static El *nth (El &r, int i) { std::vector<El *> v; gram::walk (r, v); return v[i]; }
static El *parent_of (El &r, El *k) { std::vector<El *> v; gram::walk (r, v); for (auto p : v) for (auto &q : p->kids) if (&q == k) return p; return nullptr; }
static bool mutate (El &r, const Mut &m)
{
  std::vector<El *> v; gram::walk (r, v);
  if (m.e >= (int) v.size ()) return false;
  El *e = v[m.e], *p = parent_of (r, e);
  auto idx = [&] () { for (size_t i = 0; i < p->kids.size (); i++) if (&p->kids[i] == e) return (int) i; return -1; };
  switch (m.kind)
    {
    case DEL: { if (!p) return false; int i = idx (); p->kids.erase (p->kids.begin () + i); return true; }
    case DUP: { if (!p) return false; El c = *e; int i = idx (); p->kids.insert (p->kids.begin () + i, c); return true; }
    case SWAP: { if (!p) return false; int i = idx (); if (i + 1 >= (int) p->kids.size ()) return false; std::swap (p->kids[i], p->kids[i + 1]); return true; }
    case MOVE:
      {
        if (!p || m.f >= (int) v.size ()) return false;
        El *t = v[m.f]; std::vector<El *> sub; gram::walk (*e, sub);
        if (t == p || std::find (sub.begin (), sub.end (), t) != sub.end ()) return false;
        El c = *e; t->kids.push_back (c); // e may have moved if t was an ancestor's vector: find it again
        std::vector<El *> w; gram::walk (r, w);
        for (auto q : w) for (size_t i = 0; i < q->kids.size (); i++) if (q->kids[i].line == c.line && !(q == t && i + 1 == q->kids.size ())) { q->kids.erase (q->kids.begin () + i); return true; }
        for (auto q : w) for (size_t i = 0; i < q->kids.size (); i++) if (q->kids[i].line == c.line) { q->kids.erase (q->kids.begin () + i); return true; }
        return false;
      }
    case REN: e->tag = m.a; return true;
    case INS: { static auto t = templates (); e->kids.insert (m.f ? e->kids.end () : e->kids.begin (), gram::read (t[m.a])); return true; }
    case ADROP: e->drop (m.a); return true;
    case ASET: e->set (m.a, m.b); return true;
    case BLANK: e->kids.clear (); e->text = m.a; return true;
    }
  return false;
}
static S show (const Mut &m, const El &r)
{
  std::vector<const El *> v; gram::walk (r, v);
  S e = fmt ("<%s> (line %d)", v[m.e]->tag.c_str (), v[m.e]->line);
  switch (m.kind)
    {
    case DEL: return "remove " + e; case DUP: return "duplicate " + e; case SWAP: return "swap " + e + " with its next sibling";
    case MOVE: return "move " + e + fmt (" into <%s> (line %d)", v[m.f]->tag.c_str (), v[m.f]->line);
    case REN: return "rename " + e + " to " + m.a; case INS: return "insert " + m.a + (m.f ? " at the end of " : " into ") + e;
    case ADROP: return "drop " + m.a + " of " + e; case BLANK: return "replace the content of " + e + " by '" + m.a + "'"; default: return "set " + m.a + "='" + m.b + "' in " + e;
    }
}
static std::vector<S> pool (const S &a, int flags, const std::vector<S> &ids)
{
  std::vector<S> v = { "", "a b", "nosuch", "1" };
  if (flags & (gram::F | gram::I)) { v = { "", "a b", "a&b", "nosuch", "__root__", "__settings__", "x#y", "__unamed-0__" }; v.insert (v.end (), ids.begin (), ids.end ()); }
  if (a == "role") v = { "", "a b", "onBegin", "onEnd", "onSelection", "onLookAt", "onBeginAttribution", "start", "stop", "set", "t1", "t", "zz", "onbegin" };
  if (a == "comparator") v = { "", "eq", "ne", "lt", "lte", "gt", "gte", "EQ", "=", "==", "x" };
  if (a == "operator") v = { "", "and", "or", "not", "par", "AND", "x" };
  if (a == "isNegated") v = { "", "true", "false", "maybe" };
  if (a == "eventType") v = { "", "presentation", "attribution", "selection", "lookat", "Selection", "x" };
  if (a == "transition" || a == "actionType") v = { "", "start", "starts", "stop", "stops", "pause", "aborts", "abort", "resume", "x" };
  if (a == "begin" || a == "end") v = { "", "0", "1s", "1.5s", "5", "x", "1x", "s", "1ss", "-1s", "00:00:01" };
  if (a == "label") v = { "", "L", "a b" };
  if (a == "left" || a == "top" || a == "width" || a == "height" || a == "right" || a == "bottom") v = { "", "0", "5", "25%", "12.5%", "x", "%", "100px" };
  if (a == "type") v = { "", "text/plain", "application/x-ginga-settings", "application/x-ncl-settings", "zz" };
  if (a == "interface") { v.insert (v.end (), { "x", "y", "z", "bp", "v", "g", "h", "w", "transparency", "@lambda", "explicitDur" }); }
  if (a == "name") v = { "", "a b", "x", "y", "d", "v", "w", "p", "key", "type", "region" };
  if (a == "value") v = { "", "1", "$d", "$v", "$get", "$", "$m1.x", "a b" };
  if (a == "key") v = { "", "RED", "$key", "$", "$zz" };
  if (a == "delay" || a == "duration") v = { "", "1s", "$d", "$zz", "0" };
  if (a == "src") v = { "", "x.txt" };
  return v;
}
static std::vector<Mut> mutations (const El &r, bool reduced)
{
  std::vector<Mut> out; std::vector<const El *> v; gram::walk (r, v);
  std::vector<S> ids; std::set<S> seen;
  for (auto e : v) if (e->has ("id") && seen.insert (e->val ("id")).second) ids.push_back (e->val ("id"));
  auto &g = gram::grammar (); auto t = templates ();
  int n = v.size ();
  for (int i = 0; i < n; i++)
    {
      Mut m; m.e = i;
      m.kind = DEL; out.push_back (m); m.kind = SWAP; out.push_back (m);
      if (!reduced)
        {
          m.kind = DUP; out.push_back (m);
          m.kind = BLANK; for (const char *x : { "", " ", "<!-- c -->" }) { m.a = x; out.push_back (m); } m.a = "";
          m.kind = MOVE; for (int j = 0; j < n; j++) { m.f = j; out.push_back (m); } m.f = 0;
          m.kind = REN; for (auto &x : g) { m.a = x.first; out.push_back (m); } m.a = "foo"; out.push_back (m);
          m.kind = INS; for (auto &x : t) { m.a = x.first; m.f = 0; out.push_back (m); m.f = 1; out.push_back (m); } m.f = 0;
        }
      auto it = g.find (v[i]->tag); if (it == g.end ()) continue;
      for (auto &a : v[i]->at) { m.kind = ADROP; m.a = a.first; out.push_back (m); }
      if (!reduced) { m.kind = ASET; m.a = "foo"; m.b = "1"; out.push_back (m); m.a = "id"; m.b = "fresh"; if (!it->second.at.count ("id")) out.push_back (m); }
      for (auto &a : it->second.at)
        {
          bool has = v[i]->has (a.first);
          if (reduced && !has && a.first != "interface" && a.first != "refer" && a.first != "label" && a.first != "descriptor") continue;
          m.kind = ASET; m.a = a.first;
          auto p = pool (a.first, a.second, ids);
          for (size_t k = 0; k < p.size (); k++)
            {
              if (reduced && a.second & (gram::F | gram::I)) { if (p[k] == "" || p[k] == "a b" || p[k] == "a&b" || p[k] == "__root__" || p[k] == "__unamed-0__") continue; }
              else if (reduced && k > 5) continue;
              m.b = p[k]; if (has && v[i]->val (a.first) == p[k]) continue; out.push_back (m);
            }
        }
    }
  return out;
}

// ---- reading the real document ----
static Fm formula (Predicate *p)
{
  Fm f; if (!p) return f;
  switch (p->getType ())
    {
    case Predicate::FALSUM: f.op = 'F'; break;
    case Predicate::VERUM: f.op = 'T'; break;
    case Predicate::ATOM:
      { Predicate::Test t; p->getTest (&f.l, &t, &f.r); f.op = 'a';
        f.t = t == Predicate::EQ ? "==" : t == Predicate::NE ? "!=" : t == Predicate::LT ? "<" : t == Predicate::LE ? "<=" : t == Predicate::GT ? ">" : ">="; break; }
    case Predicate::NEGATION: f.op = '!'; break; case Predicate::CONJUNCTION: f.op = '&'; break; default: f.op = '|';
    }
  if (f.op == '!' || f.op == '&' || f.op == '|') for (auto k : *p->getChildren ()) f.k.push_back (formula (k));
  return f;
}
static void atoms (const Fm &f, std::set<S> &s) { if (f.op == 'a') s.insert (f.str ()); for (auto &k : f.k) atoms (k, s); }
static bool val (const Fm &f, const std::map<S, bool> &v)
{
  switch (f.op)
    {
    case 'F': return false; case 'T': return true; case 'a': return v.at (f.str ());
    case '!': return f.k.empty () ? true : !val (f.k[0], v);
    case '&': for (auto &k : f.k) if (!val (k, v)) return false; return true;
    default: for (auto &k : f.k) if (val (k, v)) return true; return false;
    }
}
static bool same (const Fm &a, const Fm &b)
{
  std::set<S> s; atoms (a, s); atoms (b, s);
  std::vector<S> w (s.begin (), s.end ());
  if (w.size () > 12) return a.str () == b.str ();
  for (unsigned i = 0; i < 1u << w.size (); i++)
    { std::map<S, bool> v; for (size_t k = 0; k < w.size (); k++) v[w[k]] = i >> k & 1; if (val (a, v) != val (b, v)) return false; }
  return true;
}
static gram::EvKey key (Event *e) { return { e->getObject ()->getId (), (int) e->getType (), e->getId () }; }
static S show (const gram::Act &a) { return a.ev.str () + fmt (" tr%d value='%s' duration='%s' delay='%s' if ", a.tr, a.value.c_str (), a.duration.c_str (), a.delay.c_str ()) + (a.pred ? a.f.str () : "-"); }
static gram::Act act (const Action &a) { gram::Act r; r.ev = key (a.event); r.tr = a.transition; r.value = a.value; r.duration = a.duration; r.delay = a.delay; r.pred = a.predicate != nullptr; r.f = formula (a.predicate); return r; }
static bool same (const gram::Act &a, const gram::Act &b)
{ return a.ev == b.ev && a.tr == b.tr && a.value == b.value && a.duration == b.duration && a.delay == b.delay && same (a.f, b.f); }
static bool numeq (const S &a, const S &b)
{ char *p, *q; double x = strtod (a.c_str (), &p), y = strtod (b.c_str (), &q); return !strcmp (p, q) && fabs (x - y) < 0.2; }

// "" if the document denotes what the text says; only_links restricts to C15
static S differs (Document *doc, gram::Doc &d)
{
  S r;
  auto out = [&] (const S &s) { if (r == "") r = s; };
  std::set<S> real;
  for (auto o : *doc->getObjects ()) real.insert (o->getId ());
  for (auto &x : d.ob) if (!real.count (x.first)) out ("object missing: " + x.first);
  for (auto o : *doc->getObjects ())
    {
      S id = o->getId ();
      auto it = d.ob.find (id); if (it == d.ob.end ()) { out ("unexpected object " + id); continue; }
      gram::Ob &x = it->second;
      char kind = dynamic_cast<MediaSettings *> (o) ? 's' : dynamic_cast<Media *> (o) ? 'm' : dynamic_cast<Context *> (o) ? 'c' : 'w';
      if (kind != x.kind) out (id + ": wrong kind of object");
      S par = o->getParent () ? o->getParent ()->getId () : ""; if (par != x.parent) out (id + ": parent is '" + par + "', not '" + x.parent + "'");
      for (auto &a : x.aliases) { if (!o->hasAlias (a)) out (id + ": not known as " + a); if (doc->getObjectByIdOrAlias (a) != o) out ("lookup of " + a + " does not find " + id); }
      for (auto &a : *o->getAliases ()) if (!x.aliases.count (a.first)) out (id + ": unexpectedly known as " + a.first);
      std::set<gram::EvKey> ev;
      for (auto e : *o->getEvents ())
        {
          auto k = key (e); if (!ev.insert (k).second) out ("two events " + k.str ());
          auto jt = x.evs.find (k); if (jt == x.evs.end ()) { out ("unexpected event " + k.str ()); continue; }
          if (jt->second.timed) { Time b, n; e->getInterval (&b, &n); auto far = [] (Time u, Time v) { return u != v && (u == GINGA_TIME_NONE || v == GINGA_TIME_NONE || (u > v ? u - v : v - u) > 1); }; if (far (b, jt->second.begin) || far (n, jt->second.end)) out (k.str () + fmt (": interval [%llu, %llu]", (unsigned long long) b, (unsigned long long) n)); }
          if (e->getLabel () != jt->second.label) out (k.str () + ": label '" + e->getLabel () + "'");
          if (e->getType () == Event::SELECTION) { S s; e->getParameter ("key", &s); if (s != k.id) out (k.str () + ": expects the key '" + s + "'"); }
        }
      for (auto &e : x.evs) if (!ev.count (e.first)) out ("event missing: " + e.first.str ());
      for (auto &p : x.props)
        {
          S v = o->getProperty (p.first);
          if (x.loose.count (p.first)) { if (p.first != "zOrder" && p.first != "type" && p.first != "uri" && !numeq (v, p.second)) out (id + "." + p.first + " is '" + v + "', expected about '" + p.second + "'"); }
          else if (v != p.second) out (id + "." + p.first + " is '" + v + "', expected '" + p.second + "'");
        }
      for (auto &e : x.evs) if (e.first.type == Event::ATTRIBUTION && !x.props.count (e.first.id) && !x.loose.count (e.first.id) && o->getProperty (e.first.id) != "") out (e.first.str () + " has the value '" + o->getProperty (e.first.id) + "'");
      if (auto c = dynamic_cast<Context *> (o))
        {
          std::vector<gram::EvKey> ps; for (auto e : *c->getPorts ()) ps.push_back (key (e));
          if (ps != x.ports) { S s; for (auto &k : ps) s += " " + k.str (); out (id + ": ports are" + s); }
          auto ls = c->getLinks (); if (ls->size () != x.links.size ()) { out (id + fmt (": %zu links, expected %zu", ls->size (), x.links.size ())); continue; }
          size_t i = 0;
          for (auto &l : *ls)
            {
              auto &w = x.links[i++];
              auto cmp = [&] (const std::list<Action> &a, const std::vector<gram::Act> &b, const char *what) {
                if (a.size () != b.size ()) { out (id + fmt (": link %zu has %zu %s, expected %zu", i, a.size (), what, b.size ())); return; }
                size_t j = 0; for (auto &q : a) { auto g = act (q); if (!same (g, b[j])) out (id + fmt (": link %zu, %s %zu is ", i, what, j + 1) + show (g) + "; expected " + show (b[j])); j++; } };
              cmp (l.first, w.cond, "conditions"); cmp (l.second, w.act, "actions");
            }
        }
      if (auto s = dynamic_cast<Switch *> (o))
        {
          auto rs = s->getRules (); if (rs->size () != x.rules.size ()) { out (id + fmt (": %zu rules, expected %zu", rs->size (), x.rules.size ())); continue; }
          size_t i = 0; for (auto &q : *rs) { auto &w = x.rules[i++]; if (q.first->getId () != w.first || !same (formula (q.second), w.second)) out (id + fmt (": rule %zu is ", i) + q.first->getId () + " if " + formula (q.second).str () + "; expected " + w.first + " if " + w.second.str ()); }
          auto sp = s->getSwitchPorts (); if (sp->size () != x.sports.size ()) out (id + ": wrong switchPorts");
          for (auto &q : *sp) { std::vector<gram::EvKey> ps; for (auto e : q.second) ps.push_back (key (e)); if (!x.sports.count (q.first) || ps != x.sports[q.first]) out (id + ": wrong mappings of " + q.first); }
        }
    }
  return r;
}
static unsigned err_line (const S &m) { size_t p = m.find ("at line "); return p == S::npos ? 0 : atoi (m.c_str () + p + 8); }

// deliberate aborts: malformed property or delay values
static bool playable (const gram::Doc &d)
{
  double x; auto t = [&] (const S &v) { return v == "" || gram::time_ok (v, x); };
  for (auto &o : d.ob)
    {
      for (auto &p : o.second.props)
        {
          const S &n = p.first, &v = p.second;
          if (n == "explicitDur" && v != "" && !gram::time_ok (v, x)) return false;
          if ((n == "type" || n == "uri") && o.second.kind == 'm' && v != "") return false; // needs the content
          if (n == "type" || n == "uri" || n == "x" || n == "y" || n == "z" || n == "w" || n == "v" || n == "g" || n == "h" || n == "bp" || n == "foo" || n == "d" || n == "p" || n == "key" || n == "player" || n == "title" || n == "transIn" || n == "transOut" || n == "explicitDur" || n == "focusIndex" || n == "region") continue;
          if (o.second.loose.count (n)) continue;
          if (n == "transparency" || n == "left" || n == "top" || n == "width" || n == "height") { if (!gram::pct_ok (v)) return false; continue; }
          if (n == "zIndex") { for (char c : v) if (!isdigit (c)) return false; if (v == "") return false; continue; }
          return false;
        }
      for (auto &l : o.second.links) for (auto *s : { &l.cond, &l.act }) for (auto &a : *s) if (!t (a.delay) || !t (a.duration)) return false;
    }
  return true;
}
// plays it on the real code; the model tells whether the links loop for ever
static void play (const S &text, Rep &rep)
{
  static const std::vector<Op> ops = { T (0), T (1), K ("GREEN"), K ("ENTER"), K ("GREEN", false), T (1.5), T (10), FSTOP () };
  std::string err; Document *doc = Parser::parseBuffer (text.c_str (), text.size (), 800, 600, &err);
  if (!doc) return;
  model::Model m; m.init (doc, {});
  m.start (); bool loop = m.overflow;
  for (auto &o : ops) if (!loop && o.k != Op::STOP) { Drive::apply (m, o); loop = m.overflow; }
  delete doc;
  if (loop) return;
  Drive dr (text, rep); for (auto &o : ops) { if (rep.failed) break; dr.step (o); }
}

enum { ACC = 14, STRUCT = 15, CRASH = 13, TREE = 26 };
static void judge (const S &text, El &root, int what, Rep &rep)
{
  gram::Doc d (root);
  rep.say (text);
  xmlResetLastError (); // as in a new process
  S msg; Document *doc = Parser::parseBuffer (text.c_str (), text.size (), 800, 600, &msg);
  rep.steps++;
  rep.state (doc ? "ok" : msg.substr (0, 60));
  if (!doc && (msg == "" || msg == "no error")) rep.fail ("no-message", "rejected without an error message");
  if (what == ACC && d.dc == "")
    {
      rep.nontrivial = true;
      S w; for (auto &b : d.bad) w += fmt (" line %d (", b.first) + b.second + ")";
      if (doc && !d.good ()) rep.fail ("accepted", "accepted although the text is in error:" + w);
      else if (!doc && d.good ()) rep.fail ("rejected", "rejected although nothing is wrong: " + msg);
      else if (!doc && !d.bad.count (err_line (msg))) rep.fail ("line", "the error names another line: '" + msg + "', in error are" + w);
    }
  if (what == STRUCT && doc && d.good () && d.dc == "" && d.dcstruct == "")
    {
      rep.nontrivial = true;
      S s = differs (doc, d); if (s != "") rep.fail ("structure", s);
    }
  if (what == TREE && doc)
    {
      std::set<S> names { "", "nosuch" }; std::vector<El *> v; gram::walk (root, v);
      for (auto e : v) for (auto &a : e->at) if (a.first == "id" || a.first == "refer" || a.first == "component") names.insert (a.second);
      S s = tree::inconsistent (doc, names, d.dc == ""); if (s != "") rep.fail ("consistency", s);
      rep.nontrivial = true; S c; for (auto o : *doc->getObjects ()) c += o->getId () + ","; rep.state (c);
    }
  delete doc;
  if (what == CRASH) { rep.nontrivial = true; if (doc && d.dc == "" && playable (d)) play (text, rep); }
}

static std::shared_ptr<El> base (int b) { static std::map<int, std::shared_ptr<El>> m; auto &p = m[b]; if (!p) { p = std::make_shared<El> (gram::read (BASES[b].text)); gram::print (*p); } return p; }
static void singles (Spec &sp, int what)
{
  for (int b = 0; b < NBASE; b++)
    {
      auto root = base (b); auto ms = std::make_shared<std::vector<Mut>> (mutations (*root, false));
      sp.families.push_back ({ S ("every edit of the ") + BASES[b].name + " document", ms->size () + 1,
        [=] (uint64_t i, Rep &rep) { El r = *root; if (i) { rep.say (show ((*ms)[i - 1], *root)); if (!mutate (r, (*ms)[i - 1])) return; } S t = gram::print (r); judge (t, r, what, rep); },
        [=] (uint64_t i) { return i ? show ((*ms)[i - 1], *root) : S ("unchanged"); } });
    }
}
static void pairs (Spec &sp, int what, std::vector<int> which, uint64_t cap)
{
  for (int b : which)
    {
      auto root = base (b); auto ms = std::make_shared<std::vector<Mut>> (mutations (*root, true));
      uint64_t n = ms->size (), tot = n * n; if (tot > cap) tot = cap; (void) tot;
      sp.families.push_back ({ S ("every pair of reduced edits of the ") + BASES[b].name + " document", n * n,
        [=] (uint64_t i, Rep &rep) { const Mut &x = (*ms)[i / n], &y = (*ms)[i % n];
          if (x.kind == DEL && y.e > x.e) return;                       // numbering would shift: covered by the other order
          if (x.e == y.e && x.a == y.a && x.kind >= ADROP && y.kind >= ADROP) return;
          if (x.kind >= ADROP && y.kind >= ADROP && i / n > i % n) return; // commute
          El r = *root; if (!mutate (r, x) || !mutate (r, y)) return; S t = gram::print (r); judge (t, r, what, rep); },
        [=] (uint64_t i) { return show ((*ms)[i / n], *root) + "; " + show ((*ms)[i % n], *root); } });
    }
}
// byte-level damage
static void bytes (Spec &sp)
{
  for (int b = 0; b < NBASE; b++)
    {
      auto root = base (b); El r0 = *root; S t0 = gram::print (r0);
      static const char rep_[] = { 0, '<', '>', '"', '\'', '&', '/', ' ', '=', '%', '$', '#', '-', '9', 'z', '\n', (char) 0x80, (char) 0xff, ';', ':' };
      uint64_t nr = sizeof rep_, n = t0.size ();
      auto run = [] (const S &t, Rep &rep) { rep.say (t); xmlResetLastError (); S msg; Document *d = Parser::parseBuffer (t.data (), t.size (), 800, 600, &msg); rep.steps++; rep.nontrivial = true; rep.state (d ? "ok" : msg.substr (0, 60)); if (!d && (msg == "" || msg == "no error")) rep.fail ("no-message", "rejected without an error message"); delete d; };
      sp.families.push_back ({ S ("every truncation of the ") + BASES[b].name + " document", n, [=] (uint64_t i, Rep &rep) {
        S t = t0.substr (0, i), m1, m2; run (t, rep);
        Document *d = Parser::parseBuffer (t.data (), t.size (), 800, 600, &m1); delete d;
        d = Parser::parseBuffer ("<a>\n\n<b", 8, 800, 600, nullptr); delete d;
        d = Parser::parseBuffer (t.data (), t.size (), 800, 600, &m2); delete d;
        if (m1 != m2) rep.fail ("message", "'" + m1 + "' becomes '" + m2 + "' after another document was rejected"); }, [=] (uint64_t i) { return fmt ("first %d bytes", (int) i); } });
      sp.families.push_back ({ S ("every byte removed, replaced or preceded by a special one in the ") + BASES[b].name + " document", n * (2 * nr + 1), [=] (uint64_t i, Rep &rep) {
        uint64_t p = i / (2 * nr + 1), k = i % (2 * nr + 1); S t = t0;
        if (k == 2 * nr) t.erase (p, 1); else if (k < nr) t[p] = rep_[k]; else t.insert (p, 1, rep_[k - nr]);
        run (t, rep); }, [=] (uint64_t i) { return fmt ("byte %d, edit %d", (int) (i / (2 * nr + 1)), (int) (i % (2 * nr + 1))); } });
    }
}

// every nest of compound conditions with statements at each level
static void nests (Spec &sp, int what)
{
  static const std::vector<std::vector<char>> L = { {}, { 'a' }, { 'C' }, { 'D' }, { 'E' }, { 'a', 'b' }, { 'D', 'a' }, { 'N' }, { 'O' } };
  static auto st = [] (char k, int lv) -> S {
    S a = fmt ("<assessmentStatement comparator=\"eq\"><attributeAssessment role=\"t\"/><valueAssessment value=\"%d\"/></assessmentStatement>", lv), b = fmt ("<assessmentStatement comparator=\"lt\"><valueAssessment value=\"%d\"/><attributeAssessment role=\"u\"/></assessmentStatement>", lv);
    switch (k) { case 'a': return a; case 'b': return b; case 'C': return "<compoundStatement operator=\"and\">" + a + b + "</compoundStatement>"; case 'D': return "<compoundStatement operator=\"or\" isNegated=\"true\">" + b + a + "</compoundStatement>"; case 'N': return "<compoundStatement operator=\"not\"> </compoundStatement>"; case 'O': return "<compoundStatement operator=\"and\"><!-- c --></compoundStatement>"; default: return "<compoundStatement operator=\"not\">" + a + "</compoundStatement>"; } };
  for (int depth = 1; depth <= (what == CRASH ? 2 : 3); depth++)
    {
      uint64_t nl = L.size (), n = vf::ipow (nl * 2, depth) * vf::ipow (2, depth - 1) * 2 * 2;
      auto text = [=] (uint64_t i) {
        Dec d (i); bool before = d.next (2), more = d.next (2); S cond;
        for (int k = depth - 1; k >= 0; k--) // the innermost first
          {
            auto &l = L[d.next (nl)]; S op = d.next (2) ? "or" : "and", ss, own;
            for (char c : l) ss += st (c, k);
            if (k == depth - 1 || d.next (2)) own = fmt ("<simpleCondition role=\"%s\"/>", k == 0 ? "onBegin" : k == 1 ? "onEnd" : "onPause");
            cond = "<compoundCondition operator=\"" + op + "\">" + (before ? ss + own + cond : cond + own + ss) + "</compoundCondition>";
          }
        if (more) cond = before ? "<simpleCondition role=\"onResume\"/>" + cond : cond + "<simpleCondition role=\"onResume\"/>";
        S binds; for (auto r : { "onBegin", "onEnd", "onPause", "onResume" }) if (cond.find (S ("\"") + r + "\"") != S::npos) binds += S ("<bind role=\"") + r + "\" component=\"m\"/>";
        return S ("<ncl><head><connectorBase><causalConnector id=\"k\">") + cond + "<simpleAction role=\"start\"/></causalConnector></connectorBase></head><body><port id=\"p\" component=\"m\"/><media id=\"m\"><property name=\"x\" value=\"1\"/><property name=\"y\" value=\"2\"/></media><media id=\"n\"/><link xconnector=\"k\">" + binds + "<bind role=\"t\" component=\"m\" interface=\"x\"/><bind role=\"u\" component=\"m\" interface=\"y\"/><bind role=\"start\" component=\"n\"/></link></body></ncl>"; };
      sp.families.push_back ({ fmt ("conditions nested %d deep, with statements at every level", depth), n, [=] (uint64_t i, Rep &rep) { El r = gram::read (text (i)); S t = gram::print (r); judge (t, r, what, rep); }, [=] (uint64_t i) { return text (i); } });
    }
}
// every way of giving a parameter its value
static void params (Spec &sp, int what)
{
  auto text = [] (uint64_t i) {
    Dec d (i); static const char *at[] = { "link", "onSelection", "set", "t", "u" }; S lp; std::map<S, S> bp;
    for (auto a : at)
      {
        int f = d.next (4); if (!f) continue;
        S v = f == 1 ? S (a) + "1" : f == 2 ? S ("$get") : S ("$nobody");
        if (!strcmp (a, "link")) lp = "<linkParam name=\"p\" value=\"" + v + "\"/>"; else bp[a] = "<bindParam name=\"p\" value=\"" + v + "\"/>";
      }
    bool decl = d.next (2), rev = d.next (2), ghost = d.next (2); S binds[5]; int nb = 0;
    auto bind = [&] (const char *r, const char *c, const char *x) { binds[nb++] = S ("<bind role=\"") + r + "\" component=\"" + c + "\"" + (*x ? S (" interface=\"") + x + "\"" : S ()) + ">" + bp[r] + "</bind>"; };
    bind ("onSelection", "m", ""); bind ("t", "m", "x"); bind ("u", "n", "y"); bind ("set", "n", "y"); if (ghost) bind ("get", "n", "z");
    S all; for (int k = 0; k < nb; k++) all += binds[rev ? nb - 1 - k : k];
    return S ("<ncl><head><connectorBase><causalConnector id=\"k\">") + (decl ? "<connectorParam name=\"p\"/>" : "") + "<compoundCondition operator=\"and\"><simpleCondition role=\"onSelection\" key=\"$p\"/><assessmentStatement comparator=\"eq\"><attributeAssessment role=\"t\"/><valueAssessment value=\"$p\"/></assessmentStatement><assessmentStatement comparator=\"ne\"><valueAssessment value=\"$q\"/><attributeAssessment role=\"u\"/></assessmentStatement></compoundCondition>"
      "<simpleAction role=\"set\" value=\"$p\" duration=\"$p\" delay=\"$p\"/></causalConnector></connectorBase></head><body><port id=\"p\" component=\"m\"/><media id=\"m\"><property name=\"x\" value=\"1\"/></media><media id=\"n\"><property name=\"y\" value=\"2\"/><property name=\"z\" value=\"3\"/></media><link xconnector=\"k\">" + (rev ? all + lp : lp + all) + "</link></body></ncl>"; };
  sp.families.push_back ({ "every way of giving a parameter its value", vf::ipow (4, 5) * 8, [=] (uint64_t i, Rep &rep) { El r = gram::read (text (i)); S t = gram::print (r); judge (t, r, what, rep); }, [=] (uint64_t i) { return text (i); } });
}

#include "imports.h"
#include "ltab.h"

int main (int argc, char **argv)
{
  TH = vf::thorough ();
  if (argc < 2) return 2;
  Spec sp; sp.property = argv[1]; sp.level = "model_checking";
  S p = sp.property;
  if (p == "C13") { sp.rule = "all single edits (structure, names, attribute values) and byte-level damages of documents using the whole grammar; accepted documents are played"; singles (sp, CRASH); nests (sp, CRASH); bytes (sp); bad_imports (sp, true); }
  else if (p == "C14") { sp.rule = "all single edits, and all pairs of reduced edits, of documents using the whole grammar; acceptance and the error's line against an independent grammar"; singles (sp, ACC); nests (sp, ACC); params (sp, ACC); pairs (sp, ACC, TH ? std::vector<int> { 0, 1, 2, 3, 4, 5 } : std::vector<int> { 1, 5 }, 0); }
  else if (p == "C15") { sp.rule = "all single edits and pairs of reduced edits; the structure of every accepted document against an independent reading of its text"; singles (sp, STRUCT); nests (sp, STRUCT); params (sp, STRUCT); pairs (sp, STRUCT, TH ? std::vector<int> { 0, 1, 2, 3, 4, 5 } : std::vector<int> { 0, 5 }, 0); }
  else if (p == "C16") { sp.rule = "all ways of cutting a document's bases into imported files (base x depth x file sharing x path spelling x way of parsing), every single edit of the document in a covering set of cuts, and a list of imports that must be refused; structure and behaviour against the inline document"; imports (sp, TH); }
  else if (p == "C17") { sp.rule = "all documents of a generator over shapes, media contents, ports, links (conditions, predicates, actions, values, delays, durations), switches and rules, written in both syntaxes: structure, and behaviour under the same inputs; every table with one part replaced"; ltab::families (sp, TH); }
  else if (p == "C26")
    {
      sp.rule = "all sequences of construction calls to a depth against a mirror of names, places, events and ports; every document one edit away from base documents that the parser accepts, all lookups against a walk over the tree";
      tree::families (sp, TH ? 5 : 4); singles (sp, TREE); pairs (sp, TREE, TH ? std::vector<int> { 0, 1, 2, 3, 4, 5 } : std::vector<int> { 5 }, 0);
    }
  else if (p == "C25")
    {
      sp.rule = "every single edit of documents using the whole grammar (accepted ones are played), every truncation, every way of cutting a document into imported files, imports to refuse, and Lua tables, sound and damaged: executed repeatedly in one process with fresh memory filled with other bytes";
      singles (sp, CRASH); bytes (sp); imports (sp, TH, true); ltab::families (sp, TH, !TH);
      if (!TH) // the larger families are left to the thorough check
        {
          std::vector<vf::Family> keep;
          for (auto &f : sp.families)
            {
              for (const char *w : { "every byte", "every edit of the document, in", "shapes, contents", "several conditions" }) if (f.name.find (w) == 0) f.n = 0;
              if (f.name == "switches and rules") { f.name += " (one rule)"; f.n = 5 * 2 * (1 + 20); }
              if (f.name.find ("every edit of the") == 0 && f.n > 6000) vf::thin (f, 5, "edit"); else if (f.n > 3000) vf::thin (f, 3, "edit");
              if (f.n) keep.push_back (f);
            }
          sp.families = keep;
        }
    }
  else return 2;
  return vf::run (sp, argc, argv);
}
