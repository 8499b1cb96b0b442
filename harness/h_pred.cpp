// C07: every predicate/rule/assessment formula up to a size, in every property
// state, against an independent evaluator of the formula.
#include "drive.h"
#include "Parser.h"
#include "Predicate.h"
#include <memory>
using namespace ginga;
using vf::fmt; using vf::Rep; using vf::Spec; using vf::Dec;
typedef std::string S;
typedef std::map<S, S> State; // "object.property" -> value

struct F;
typedef std::shared_ptr<F> P;
struct F { char k; int test = 0; S l, r; std::vector<P> kids; bool neg = false; }; // k: 0 false, 1 true, a atom, ! not, & and, | or
static P leaf (const S &l, int t, const S &r) { auto p = std::make_shared<F> (); p->k = 'a'; p->l = l; p->test = t; p->r = r; return p; }
static P cst (bool b) { auto p = std::make_shared<F> (); p->k = b ? '1' : '0'; return p; }
static P mk (char k, std::vector<P> kids, bool neg = false) { auto p = std::make_shared<F> (); p->k = k; p->kids = kids; p->neg = neg; return p; }
static const char *CMP[] = { "eq", "ne", "lt", "lte", "gt", "gte" };

// the oracle
static S val (const S &t, const State &s)
{
  if (t.empty () || t[0] != '$') return t;
  size_t d = t.find ('.');
  if (d == S::npos) return t;
  S o = t.substr (1, d - 1);
  if (o != "m" && o != "m1" && o != "__settings__") return t; // not an object: stands for itself
  auto it = s.find (t.substr (1));
  return it == s.end () ? "" : it->second;
}
static bool ev (const P &p, const State &s)
{
  bool r = false;
  switch (p->k)
    {
    case '0': r = false; break;
    case '1': r = true; break;
    case 'a':
      {
        S a = val (p->l, s), b = val (p->r, s);
        size_t i = 0; while (i < a.size () && i < b.size () && a[i] == b[i]) i++;
        int c = i < a.size () ? (i < b.size () ? ((unsigned char) a[i] < (unsigned char) b[i] ? -1 : 1) : 1) : (i < b.size () ? -1 : 0);
        switch (p->test) { case 0: r = c == 0; break; case 1: r = c != 0; break; case 2: r = c < 0; break; case 3: r = c <= 0; break; case 4: r = c > 0; break; default: r = c >= 0; }
        break;
      }
    case '!': r = !ev (p->kids[0], s); break;
    case '&': r = true; for (auto &k : p->kids) r = r && ev (k, s); break;
    case '|': r = false; for (auto &k : p->kids) r = r || ev (k, s); break;
    }
  return p->neg ? !r : r;
}
static S str (const P &p)
{
  S r;
  if (p->k == 'a') r = "'" + p->l + "' " + CMP[p->test] + " '" + p->r + "'";
  else if (p->k == '0' || p->k == '1') r = p->k == '1' ? "true" : "false";
  else { r = p->k == '!' ? "not(" : p->k == '&' ? "and(" : "or("; for (size_t i = 0; i < p->kids.size (); i++) r += (i ? ", " : "") + str (p->kids[i]); r += ")"; }
  return p->neg ? "NEG " + r : r;
}
static Predicate *build (const P &p)
{
  switch (p->k)
    {
    case '0': return new Predicate (Predicate::FALSUM);
    case '1': return new Predicate (Predicate::VERUM);
    case 'a': { auto q = new Predicate (Predicate::ATOM); q->setTest (p->l, (Predicate::Test) p->test, p->r); return q; }
    default:
      {
        auto q = new Predicate (p->k == '!' ? Predicate::NEGATION : p->k == '&' ? Predicate::CONJUNCTION : Predicate::DISJUNCTION);
        for (auto &k : p->kids) q->addChild (build (k));
        return q;
      }
    }
}
// changes every atom of a predicate (to show that a copy is independent)
static void scramble (Predicate *p)
{
  if (p->getType () == Predicate::ATOM) p->setTest ("x", Predicate::EQ, "y");
  else for (auto c : *p->getChildren ()) scramble (c);
}

// ---- formulas
static std::vector<P> grow (const std::vector<P> &base, const std::vector<P> &other, bool empty, bool nots)
{
  std::vector<P> r;
  for (auto &a : base) if (nots) r.push_back (mk ('!', { a }));
  for (char k : { '&', '|' })
    {
      if (empty) r.push_back (mk (k, {}));
      for (auto &a : base) r.push_back (mk (k, { a }));
      for (auto &a : base) for (auto &b : other) { r.push_back (mk (k, { a, b })); r.push_back (mk (k, { b, a })); }
    }
  return r;
}

static const char *XV[] = { nullptr, "", "1", "2", "10", "a" };

// ---- family: the API
struct ApiDoc { Document *d = nullptr; Media *m; };
static State api_state (unsigned i, ApiDoc *w)
{
  State s; Dec q (i);
  const char *x = XV[q.next (6)], *v = XV[q.next (6)];
  if (x) s["m.x"] = x;
  if (v) s["__settings__.v"] = v;
  s["m.x.y"] = v ? v : ""; s["__settings__.sys.v"] = x ? x : ""; s["m."] = "e"; s["m..x"] = "1"; // names with dots
  if (w)
    {
      w->m->setProperty ("x.y", v ? v : ""); w->d->getSettings ()->setProperty ("sys.v", x ? x : "", 0); w->m->setProperty ("", "e"); w->m->setProperty (".x", "1");
      w->m->setProperty ("x", x ? x : ""); w->d->getSettings ()->setProperty ("v", v ? v : "", 0);
    }
  return s;
}
static void api_case (const P &p, Rep &r)
{
  static ApiDoc w;
  if (!w.d) { w.d = new Document (); w.m = new Media ("m"); w.d->getRoot ()->addChild (w.m); }
  Predicate *orig = build (p), *copy = orig->clone ();
  S before = orig->toString ();
  if (copy->toString () != before) r.fail ("copy-text", "a copy reads " + copy->toString () + ", the original " + before);
  auto snap = [&] { S t; for (auto *o : *w.d->getObjects ()) t += o->getId () + ":" + o->getProperty ("x") + "," + o->getProperty ("v") + ";"; return t; };
  for (unsigned i = 0; i < 36; i++)
    {
      State s = api_state (i, &w);
      bool want = ev (p, s);
      S s0 = snap ();
      bool a = w.d->evalPredicate (orig), b = w.d->evalPredicate (copy), c = w.d->evalPredicate (orig);
      r.steps += 3;
      S at = fmt (" with m.x='%s' v='%s'", s["m.x"].c_str (), s["__settings__.v"].c_str ());
      if (a != want) r.fail ("value", str (p) + at + (a ? " is true" : " is false") + ", expected the opposite");
      if (b != want) r.fail ("copy", "the copy of " + str (p) + at + " evaluates differently");
      if (c != a) r.fail ("repeat", str (p) + at + " evaluates differently the second time");
      if (snap () != s0 || orig->toString () != before) r.fail ("side-effect", "evaluating " + str (p) + " changed something");
      r.state (str (p) + at); if (want) r.nontrivial = true;
    }
  // the copy is independent of the original, and the other way round
  scramble (copy);
  if (orig->toString () != before) r.fail ("copy-shared", "changing a copy of " + str (p) + " changes the original");
  Predicate *c2 = orig->clone ();
  delete orig;
  for (unsigned i = 0; i < 36; i += 5) { State s = api_state (i, &w); if (w.d->evalPredicate (c2) != ev (p, s)) r.fail ("copy-after-delete", "a copy of " + str (p) + " evaluates differently once the original is gone"); }
  delete c2; delete copy;
}
static void family (Spec &sp, const S &name, std::shared_ptr<std::vector<P>> ps)
{
  vf::Family f; f.name = name; f.n = ps->size ();
  f.exec = [ps] (uint64_t i, Rep &r) { api_case ((*ps)[i], r); };
  f.describe = [ps] (uint64_t i) { return str ((*ps)[i]); };
  sp.families.push_back (f);
}

// ---- family: rules
static S rule_xml (const P &p, int &n)
{
  S id = fmt (" id='r%d'", n++);
  if (p->k == 'a') return "<rule" + id + " var='" + p->l.substr (strlen ("$__settings__.")) + "' comparator='" + CMP[p->test] + "' value='" + p->r + "'/>";
  S s = "<compositeRule" + id + " operator='" + (p->k == '!' ? "not" : p->k == '&' ? "and" : "or") + "'>";
  for (auto &k : p->kids) s += rule_xml (k, n);
  return s + "</compositeRule>";
}
static Formatter *play (const S &text, Rep &r)
{
  S file = vf::scratch () + "/p.ncl"; vf::write_file (file, text);
  r.say (text);
  GingaOptions o; o.width = 800; o.height = 600; o.debug = o.webservices = o.opengl = o.experimental = false; o.background = "";
  Formatter *f = new Formatter (&o); S err;
  if (!f->start (file, &err)) { r.fail ("start", "document rejected: " + err); delete f; return nullptr; }
  return f;
}
static bool occurring (Document *d, const S &id)
{ Object *o = d->getObjectById (id); return o && o->getLambda ()->getState () == Event::OCCURRING; }
static void rule_case (const P &p, unsigned st, Rep &r)
{
  State s; Dec q (st); const char *v = XV[q.next (6)], *u = XV[2 + q.next (2)];
  const char *later = XV[q.next (6)]; // the variable set while playing, before the second selection
  int n = 0; S rx = rule_xml (p, n);
  S t = ncl ("<port id='p' component='k'/><media id='k'/><media id='st' type='application/x-ginga-settings'>" + (v ? "<property name='v' value='" + S (v) + "'/>" : S ("<property name='v'/>"))
    + "<property name='u' value='" + u + "'/><property name='sys.u' value='" + u + "'/><property name='sys.' value='1'/></media><switch id='s'><bindRule constituent='s1' rule='r0'/><defaultComponent component='s2'/><media id='s1'/><media id='s2'/></switch>", "<ruleBase>" + rx + "</ruleBase>");
  Formatter *f = play (t, r);
  if (!f) return;
  Document *d = f->getDocument ();
  s["__settings__.u"] = s["__settings__.sys.u"] = u; s["__settings__.sys."] = "1"; if (v) s["__settings__.v"] = v;
  auto sel = [&] (const S &when) {
    d->evalAction (find_event (d, "s@lambda"), Event::START);
    bool want = ev (p, s); r.steps++; if (want) r.nontrivial = true;
    if (occurring (d, "s1") != want || occurring (d, "s2") == want)
      r.fail ("rule", "rule " + str (p) + " with v='" + s["__settings__.v"] + "' u='" + u + "' (" + when + ") selected " + (occurring (d, "s1") ? "the bound" : "not the bound") + " component");
    r.state (str (p) + s["__settings__.v"] + u);
  };
  sel ("initial value");
  d->evalAction (find_event (d, "s@lambda"), Event::STOP);
  if (later && *later) { d->evalAction (find_event (d, "__settings__.v"), Event::START, later); s["__settings__.v"] = later; sel ("value set while playing"); }
  delete f;
}

// ---- family: assessments in connectors
static S stmt_xml (const P &p, bool swap)
{
  S neg = p->neg ? " isNegated='true'" : "";
  if (p->k == 'a')
    {
      auto side = [] (const S &t) { return t == "$m1.x" ? S ("<attributeAssessment role='rx' eventType='attribution' attributeType='nodeProperty'/>") : t == "$__settings__.v" ? S ("<attributeAssessment role='rv'/>")
        : "<valueAssessment value='" + t + "'/>"; };
      return S ("<assessmentStatement comparator='") + CMP[p->test] + "'>" + side (p->l) + side (p->r) + "</assessmentStatement>";
    }
  S s = S ("<compoundStatement operator='") + (p->k == '!' ? "not" : p->k == '&' ? "and" : "or") + "'" + neg + ">";
  for (auto &k : p->kids) s += stmt_xml (k, swap);
  return s + "</compoundStatement>";
}
// parameters are written $k in the connector; k is given by the link or the bind
static P subst (const P &p, const S &k)
{
  auto q = std::make_shared<F> (*p);
  if (q->l == "$k") q->l = k;
  if (q->r == "$k") q->r = k;
  for (auto &c : q->kids) c = subst (c, k);
  return q;
}
static void stmt_case (const std::vector<P> &ps, unsigned layout, unsigned st, Rep &r)
{
  Dec q (st); S x = XV[1 + q.next (5)], v = XV[1 + q.next (5)]; unsigned pw = q.next (2);
  static const char *set[] = { "", "2", "10" }; S later = set[q.next (3)];
  S cond = "<simpleCondition role='onBegin'/>";
  S st0 = stmt_xml (ps[0], false), st1 = ps.size () > 1 ? stmt_xml (ps[1], false) : "", c;
  switch (layout)
    {
    case 0: c = "<compoundCondition operator='and'>" + cond + st0 + st1 + "</compoundCondition>"; break;
    case 1: c = "<compoundCondition operator='and'>" + st0 + st1 + cond + "</compoundCondition>"; break;
    default: c = "<compoundCondition operator='and'>" + st0 + "<compoundCondition operator='or'>" + cond + "<simpleCondition role='onPause'/>" + "<compoundStatement operator='and'>" + (st1 == "" ? st0 + st0 : st1 + st1) + "</compoundStatement></compoundCondition></compoundCondition>";
    }
  S all = st0 + st1;
  auto par = [&] (bool yes) { return yes ? S ("<bindParam name='k' value='10'/>") : S (); };
  bool hx = all.find ("'rx'") != S::npos, hv = all.find ("'rv'") != S::npos;
  S t = ncl ("<port id='p' component='k'/><media id='k'/><media id='m1'><property name='x' value='" + x + "'/></media><media id='m2'/><media id='st' type='application/x-ginga-settings'><property name='v' value='" + v + "'/></media>"
    "<link xconnector='c'>" + (pw ? S ("<linkParam name='k' value='10'/>") : S ()) + "<bind role='onBegin' component='m1'/>" + (layout == 2 ? "<bind role='onPause' component='m1'/>" : "")
    + (hx ? "<bind role='rx' component='m1' interface='x'>" + par (!pw) + "</bind>" : S ())
    + (hv ? "<bind role='rv' component='st' interface='v'>" + par (!pw && !hx) + "</bind>" : S ()) + "<bind role='start' component='m2'/></link>",
    "<connectorBase><causalConnector id='c'><connectorParam name='k'/>" + c + "<simpleAction role='start'/></causalConnector></connectorBase>");
  Formatter *f = play (t, r);
  if (!f) return;
  Document *d = f->getDocument ();
  State s; s["m1.x"] = x; s["__settings__.v"] = v;
  auto check = [&] (const S &when) {
    bool want = true; for (auto &p : ps) want = want && ev (subst (p, "10"), s);
    if (want) r.nontrivial = true;
    r.steps++;
    if (occurring (d, "m2") != want)
      r.fail ("assessment", "link with " + str (ps[0]) + (ps.size () > 1 ? " and " + str (ps[1]) : S ()) + " and x='" + s["m1.x"] + "' v='" + s["__settings__.v"] + "' (" + when + ") " + (want ? "did not fire" : "fired"));
    r.state (all + s["m1.x"] + "/" + s["__settings__.v"]);
  };
  d->evalAction (find_event (d, "m1@lambda"), Event::START); check ("initial values");
  for (const char *m : { "m1@lambda", "m2@lambda" }) d->evalAction (find_event (d, m), Event::STOP);
  if (later != "")
    {
      d->evalAction (find_event (d, hx ? "m1.x" : "__settings__.v"), Event::START, later); s[hx ? "m1.x" : "__settings__.v"] = later;
      d->evalAction (find_event (d, "m1@lambda"), Event::START); check ("value set while playing");
    }
  delete f;
}

int main (int argc, char **argv)
{
  S prop = argc > 1 ? argv[1] : "";
  if (prop != "C07") { fprintf (stderr, "unknown property\n"); return 2; }
  const bool TH = vf::thorough ();
  Spec sp; sp.property = prop; sp.level = "model_checking";
  sp.rule = "every formula of the family (all trees over its leaves up to its depth), evaluated by the real code in every state of the properties it mentions and compared with the truth value of the formula; states are (formula, property values) pairs; non-trivial when the formula is true in some state";
  // API: all atoms
  auto atoms = std::make_shared<std::vector<P>> ();
  for (const char *l : { "$m.x", "$__settings__.v", "$m.none", "$nobody.x", "$x", "$m.x.y", "$__settings__.sys.v", "$m.", "$m..x", "1", "a", "" }) for (int t = 0; t < 6; t++) for (const char *r : { "1", "2", "10", "a", "", "$m.x", "$__settings__.v", "$nobody.x", "$m.x.y" })
    atoms->push_back (leaf (l, t, r));
  for (bool b : { false, true }) atoms->push_back (cst (b));
  family (sp, "all atoms", atoms);
  std::vector<P> l0{ cst (false), cst (true), leaf ("$m.x", 0, "1"), leaf ("$m.x", 2, "2"), leaf ("$__settings__.v", 4, "1"), leaf ("1", 1, "$__settings__.v") };
  auto l1 = grow (l0, l0, true, true);
  std::vector<P> m1 = l0; m1.insert (m1.end (), l1.begin (), l1.end ());
  if (TH) for (char k : { '&', '|' }) for (auto &a : l0) for (auto &b : l0) for (auto &c : l0) m1.push_back (mk (k, { a, b, c }));
  auto l2 = std::make_shared<std::vector<P>> (grow (m1, TH ? m1 : l1, true, true));
  family (sp, "all formulas of depth 2", l2);
  std::vector<P> l0s{ l0[0], l0[2], l0[4] }, l1s = grow (l0s, l0s, true, true), l2s = grow (l1s, l0s, false, true);
  auto l3 = std::make_shared<std::vector<P>> (grow (l2s, TH ? l1s : l0s, false, true));
  family (sp, "formulas of depth 3 over three leaves", l3);
  // rules
  auto rl = std::make_shared<std::vector<P>> ();
  for (const char *v : { "v", "u", "sys.u", "sys." }) for (int t = 0; t < 6; t++) for (const char *r : { "1", "2", "", "a" }) rl->push_back (leaf (S ("$__settings__.") + v, t, r));
  std::vector<P> r0{ leaf ("$__settings__.v", 0, "1"), leaf ("$__settings__.u", 5, "2"), leaf ("$__settings__.v", 2, "2") };
  auto r1 = grow (r0, r0, false, true); auto r2 = grow (r1, r0, false, true);
  rl->insert (rl->end (), r1.begin (), r1.end ()); rl->insert (rl->end (), r2.begin (), r2.end ());
  if (TH) { auto r3 = grow (r1, r1, false, false); rl->insert (rl->end (), r3.begin (), r3.end ()); }
  { vf::Family f; f.name = "rules of a switch x variable values"; f.n = rl->size () * 72;
    f.exec = [rl] (uint64_t i, Rep &r) { rule_case ((*rl)[i / 72], i % 72, r); };
    f.describe = [rl] (uint64_t i) { return str ((*rl)[i / 72]) + fmt (" state %u", (unsigned) (i % 72)); }; sp.families.push_back (f); }
  // assessments
  auto sl = std::make_shared<std::vector<std::vector<P>>> ();
  std::vector<S> ops{ "$m1.x", "$__settings__.v", "1", "$k", "" };
  for (auto &l : ops) for (int t = 0; t < 6; t++) for (auto &r : ops)
    { if (l[0] != '$' && r[0] != '$') continue; if ((l == "$k" || l == "1" || l == "") && (r == "$k" || r == "1" || r == "")) continue; sl->push_back ({ leaf (l, t, r) }); }
  std::vector<P> s0{ leaf ("$m1.x", 0, "1"), leaf ("$__settings__.v", 4, "1"), leaf ("$k", 3, "$m1.x"), leaf ("$m1.x", 1, "$__settings__.v") }, s1;
  auto comp = [&] (const std::vector<P> &a, const std::vector<P> &b, std::vector<P> &out) {
    for (bool neg : { false, true })
      {
        for (auto &x : a) out.push_back (mk ('!', { x }, neg));
        for (char k : { '&', '|' }) for (auto &x : a) for (auto &y : b) { out.push_back (mk (k, { x, y }, neg)); out.push_back (mk (k, { y, x, y }, neg)); }
      } };
  comp (s0, s0, s1);
  for (auto &p : s1) sl->push_back ({ p });
  std::vector<P> s2; comp (s1, { s0[0], s0[1] }, s2);
  if (!TH) { std::vector<P> k; for (size_t i = 0; i < s2.size (); i++) if (i % 3 == 0) k.push_back (s2[i]); s2 = k; }
  for (auto &p : s2) sl->push_back ({ p });
  for (auto &a : s0) for (auto &b : s1) sl->push_back ({ a, b });
  for (unsigned lay = 0; lay < 3; lay++)
    {
      vf::Family f; f.name = fmt ("link assessments, layout %u", lay); unsigned ns = TH ? 150 : 30; f.n = sl->size () * ns;
      f.exec = [sl, lay, ns] (uint64_t i, Rep &r) { stmt_case ((*sl)[i / ns], lay, ns == 150 ? i % ns : (i % ns) * 7 % 150, r); };
      f.describe = [sl, lay, ns] (uint64_t i) { auto &v = (*sl)[i / ns]; return str (v[0]) + (v.size () > 1 ? " and " + str (v[1]) : S ()) + fmt (" layout %u state %u", lay, (unsigned) (i % ns)); };
      sp.families.push_back (f);
    }
  sp.assumptions = { "a valueAssessment parameter is given either by linkParam or by a bindParam of an assessment bind", "rules compare settings variables only, as in NCL" };
  return vf::run (sp, argc, argv);
}
