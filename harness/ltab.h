// C17: the same abstract presentation written as NCL and as a table.
// Included by h_parse.cpp after imports.h.
#include "ParserLua.h"

namespace ltab {
struct Pr { char op = 0; S l, t, r; std::vector<Pr> k; };       // 0 none, 'a' atom, '&' '|' '!' 'T' 'F'
struct Ac { S tr, ev, value, delay, dur; Pr p; };
struct Lk { std::vector<Ac> c, a; };
struct Nd { char kind; S id; std::vector<std::pair<S, S>> props; std::vector<std::vector<S>> areas; std::vector<Nd> kids; std::vector<S> ports; std::vector<Lk> links; std::vector<std::pair<S, Pr>> rules; std::map<S, std::map<S, S>> trans; };

static S q (const S &s) { return "'" + s + "'"; }
static S lua (const Pr &p)
{
  switch (p.op) { case 'a': return "{" + q (p.l) + "," + q (p.t) + "," + q (p.r) + "}"; case 'T': return "{true}"; case 'F': return "{false}"; case '!': return "{'not'," + lua (p.k[0]) + "}";
    default: return S (p.op == '&' ? "{'and'," : "{'or',") + lua (p.k[0]) + "," + lua (p.k[1]) + "}"; }
}
static S list_ (const std::vector<S> &v) { S s = "{"; for (size_t i = 0; i < v.size (); i++) s += (i ? "," : "") + v[i]; return s + "}"; }
static S lua (const Lk &l)
{
  std::vector<S> c, a;
  for (auto &x : l.c) c.push_back ("{" + q (x.tr) + "," + q (x.ev) + (x.p.op ? "," + lua (x.p) : S ()) + "}");
  for (auto &x : l.a)
    {
      S s = "{" + q (x.tr) + "," + q (x.ev); bool ps = x.delay != "" || x.dur != "";
      if (x.value != "" || ps) s += "," + (x.value == "" ? S ("nil") : q (x.value));
      if (ps) { s += ",{"; if (x.delay != "") s += "delay=" + q (x.delay) + (x.dur != "" ? "," : ""); if (x.dur != "") s += "duration=" + q (x.dur); s += "}"; }
      a.push_back (s + "}");
    }
  return "{" + list_ (c) + "," + list_ (a) + "}";
}
static S lua (const Nd &n)
{
  S s; std::vector<S> v;
  if (n.kind == 'm')
    {
      s = "{'media'," + q (n.id) + ",";
      if (n.props.empty () && n.trans.empty ()) s += n.areas.empty () ? "{}" : "nil"; else { for (auto &p : n.props) v.push_back ("['" + p.first + "']=" + q (p.second)); for (auto &t : n.trans) { std::vector<S> w; for (auto &x : t.second) w.push_back (x.first + "=" + q (x.second)); v.push_back (t.first + "=" + list_ (w)); } s += list_ (v); }
      v.clear (); for (auto &a : n.areas) v.push_back ("{" + q (a[0]) + "," + (a[1] == "" ? S ("nil") : q (a[1])) + "," + (a[2] == "" ? S ("nil") : q (a[2])) + "}");
      if (!v.empty ()) s += "," + list_ (v);
      return s + "}";
    }
  std::vector<S> k; for (auto &x : n.kids) k.push_back (lua (x));
  if (n.kind == 'c')
    {
      for (auto &p : n.ports) v.push_back (q (p));
      s = "{'context'," + q (n.id) + ",{}," + (v.empty () ? S ("nil") : list_ (v)) + "," + list_ (k);
      v.clear (); for (auto &l : n.links) v.push_back (lua (l));
      return s + (v.empty () ? S () : "," + list_ (v)) + "}";
    }
  for (auto &r : n.rules) v.push_back ("{" + q (r.first) + "," + lua (r.second) + "}");
  return "{'switch'," + q (n.id) + "," + list_ (k) + (v.empty () ? S () : "," + list_ (v)) + "}";
}
struct Ncl
{
  S conns, rules, descs, trs; int n = 0;
  void bindto (const S &ev, S &comp, S &iface, S &type, S &key)
  {
    size_t i; iface = key = "";
    if ((i = ev.find ('@')) != S::npos) { comp = ev.substr (0, i); iface = ev.substr (i + 1); if (iface == "lambda") iface = ""; type = "presentation"; }
    else if ((i = ev.find ('.')) != S::npos) { comp = ev.substr (0, i); iface = ev.substr (i + 1); type = "attribution"; }
    else { i = ev.find ('<'); comp = ev.substr (0, i); key = ev.substr (i + 1, ev.size () - i - 2); type = "selection"; }
  }
  S stmt (const Pr &p, std::vector<std::pair<S, S>> &tests)
  {
    static const std::map<S, S> c = { { "==", "eq" }, { "!=", "ne" }, { "<", "lt" }, { "<=", "lte" }, { ">", "gt" }, { ">=", "gte" } };
    if (p.op == 'a')
      {
        S s = "<assessmentStatement comparator='" + c.at (p.t) + "'>";
        for (auto &x : { p.l, p.r }) if (x[0] == '$') { S r = fmt ("t%d", n++); tests.push_back ({ r, x.substr (1) }); s += "<attributeAssessment role='" + r + "'/>"; } else s += "<valueAssessment value='" + x + "'/>";
        return s + "</assessmentStatement>";
      }
    S s = S ("<compoundStatement operator='") + (p.op == '&' ? "and" : p.op == '|' ? "or" : "not") + "'>";
    for (auto &k : p.k) s += stmt (k, tests);
    return s + "</compoundStatement>";
  }
  S rule (const Pr &p, S *id)
  {
    static const std::map<S, S> c = { { "==", "eq" }, { "!=", "ne" }, { "<", "lt" }, { "<=", "lte" }, { ">", "gt" }, { ">=", "gte" } };
    *id = fmt ("u%d", n++);
    if (p.op == 'a') return "<rule id='" + *id + "' var='" + p.l.substr (14) + "' comparator='" + c.at (p.t) + "' value='" + p.r + "'/>";
    S s = S ("<compositeRule id='") + *id + "' operator='" + (p.op == '&' ? "and" : p.op == '|' ? "or" : "not") + "'>";
    for (auto &k : p.k) { S x; s += rule (k, &x); }
    return s + "</compositeRule>";
  }
  S link (const Lk &l)
  {
    S id = fmt ("k%d", n++), c = "<causalConnector id='" + id + "'><compoundCondition operator='or'>", a = "<compoundAction operator='seq'>", b;
    auto role = [&] (const Ac &x, bool cond) {
      S comp, iface, type, key, r = fmt ("r%d", n++); bindto (x.ev, comp, iface, type, key);
      S s = (cond ? "<simpleCondition role='" : "<simpleAction role='") + r + "' eventType='" + type + "' " + (cond ? "transition='" : "actionType='") + (x.tr == "set" ? S ("start") : x.tr) + "'";
      if (key != "") s += " key='" + key + "'";
      if (!cond && type == "attribution") s += " value='" + x.value + "'";
      if (x.delay != "") s += " delay='" + x.delay + "'";
      if (x.dur != "") s += " duration='" + x.dur + "'";
      b += "<bind role='" + r + "' component='" + comp + "'" + (iface == "" ? S () : " interface='" + iface + "'") + "/>";
      return s + "/>"; };
    for (auto &x : l.c)
      {
        if (!x.p.op) { c += role (x, true); continue; }
        std::vector<std::pair<S, S>> t; S st = stmt (x.p, t);
        c += "<compoundCondition operator='and'>" + role (x, true) + st + "</compoundCondition>";
        for (auto &y : t) b += "<bind role='" + y.first + "' component='" + y.second.substr (0, y.second.find ('.')) + "' interface='" + y.second.substr (y.second.find ('.') + 1) + "'/>";
      }
    for (auto &x : l.a) a += role (x, false);
    conns += c + "</compoundCondition>" + a + "</compoundAction></causalConnector>\n";
    return "<link xconnector='" + id + "'>" + b + "</link>\n";
  }
  S node (const Nd &x, bool top)
  {
    if (x.kind == 'm')
      {
        S s = "<media id='" + x.id + "'";
        if (!x.trans.empty ())
          {
            S d = fmt ("d%d", n++); descs += "<descriptor id='" + d + "'"; s += " descriptor='" + d + "'";
            for (auto &t : x.trans) { S i = fmt ("tr%d", n++); descs += " " + t.first + "='" + i + "'"; trs += "<transition id='" + i + "'"; for (auto &y : t.second) trs += " " + y.first + "='" + y.second + "'"; trs += "/>"; }
            descs += "/>";
          }
        s += ">";
        for (auto &p : x.props) s += "<property name='" + p.first + "' value='" + p.second + "'/>";
        for (auto &a : x.areas) s += "<area id='" + a[0] + "'" + (a[1] == "" ? S () : " begin='" + a[1] + "'") + (a[2] == "" ? S () : " end='" + a[2] + "'") + "/>";
        return s + "</media>\n";
      }
    S tag = top ? "body" : x.kind == 'c' ? "context" : "switch", s = "<" + tag + " id='" + x.id + "'>";
    int pn = 0;
    for (auto &p : x.ports) { S comp, iface, type, key; bindto (p, comp, iface, type, key); s += fmt ("<port id='p%d%s' component='", pn++, x.id.c_str ()) + comp + "'" + (iface == "" ? S () : " interface='" + iface + "'") + "/>"; }
    for (auto &r : x.rules) if (r.second.op != 'T') { S id; rules += rule (r.second, &id); s += "<bindRule constituent='" + r.first + "' rule='" + id + "'/>"; } else s += "<defaultComponent component='" + r.first + "'/>";
    for (auto &k : x.kids) s += node (k, false);
    for (auto &l : x.links) s += link (l);
    return s + "</" + tag + ">\n";
  }
};
static S ncl_ (const Nd &x)
{
  Ncl n; S b = n.node (x, true), h;
  if (n.rules != "") h += "<ruleBase>" + n.rules + "</ruleBase>";
  if (n.trs != "") h += "<transitionBase>" + n.trs + "</transitionBase><descriptorBase>" + n.descs + "</descriptorBase>";
  if (n.conns != "") h += "<connectorBase>" + n.conns + "</connectorBase>";
  return "<ncl><head>" + h + "</head>\n" + b + "</ncl>";
}
// what the two forms denote: values of conditions and of events without value are left out
static S dump2 (Document *d)
{
  std::set<S> out;
  auto ac = [] (const Action &a, bool cond) { auto g = act (a); if (cond || a.event->getType () != Event::ATTRIBUTION) g.value = ""; return ::show (g); };
  for (auto o : *d->getObjects ())
    {
      S s = o->getId () + " in " + (o->getParent () ? o->getParent ()->getId () : S ("-")) + " : " + o->getObjectTypeAsString (); std::set<S> t;
      for (auto &a : *o->getAliases ()) t.insert (" aka " + a.first);
      for (auto e : *o->getEvents ())
        {
          Time b, n; e->getInterval (&b, &n); S k; e->getParameter ("key", &k);
          t.insert (" " + key (e).str () + (e->getType () == Event::PRESENTATION ? fmt (" %llu-%llu ", (unsigned long long) b, (unsigned long long) n) : S ()) + e->getLabel () + " " + k);
          if (e->getType () == Event::ATTRIBUTION && e->getId () != "zOrder") { S v = o->getProperty (e->getId ()); t.insert (" ." + e->getId () + "=" + (e->getId () == "transIn" || e->getId () == "transOut" ? table_text (v) : v)); }
        }
      for (auto &x : t) s += "\n" + x;
      if (auto c = dynamic_cast<Context *> (o))
        {
          s += "\n ports:"; for (auto e : *c->getPorts ()) s += " " + key (e).str ();
          for (auto &l : *c->getLinks ()) { s += "\n link"; for (auto &q : l.first) s += "\n  when " + ac (q, true); for (auto &q : l.second) s += "\n  do " + ac (q, false); }
        }
      if (auto w = dynamic_cast<Switch *> (o)) for (auto &q : *w->getRules ()) s += "\n rule " + q.first->getId () + " if " + pstr (q.second);
      out.insert (s);
    }
  S r; for (auto &x : out) r += x + "\n"; return r;
}
// formulas up to the order of operands
static Fm norm (Fm f) { for (auto &k : f.k) k = norm (k); if (f.op == '&' || f.op == '|') std::sort (f.k.begin (), f.k.end (), [] (const Fm &a, const Fm &b) { return a.str () < b.str (); }); while ((f.op == '&' || f.op == '|') && f.k.size () == 1) { Fm x = f.k[0]; f = x; } return f; }
static S diff_docs (Document *a, Document *b);
static void judge2 (const Nd &x, bool play_, Rep &rep)
{
  S l = "return " + lua (x), n = ncl_ (x), m1, m2; rep.say (l); rep.say (n);
  Document *a = Parser::parseBuffer (n.data (), n.size (), 800, 600, &m1), *b = ParserLua::parseBuffer (l.data (), l.size (), &m2);
  rep.steps += 2; rep.nontrivial = true;
  if (!a) { rep.fail ("harness", "the NCL form is rejected: " + m1); delete b; return; }
  if (!b) { rep.fail ("rejected", "the table form is rejected: " + m2); delete a; return; }
  S s = diff_docs (a, b); if (s != "") rep.fail ("differs", s);
  rep.state (dump2 (a)); delete a; delete b;
  if (play_ && !rep.failed)
    {
      S dir = isodir (); vf::write_file (dir + "/d.ncl", n); vf::write_file (dir + "/d.lua", l);
      auto v = behaviour (dir + "/d.ncl"), w = behaviour (dir + "/d.lua"); rep.steps += v.size ();
      for (size_t i = 0; i < v.size () && !rep.failed; i++) if (i >= w.size () || v[i] != w[i]) rep.fail ("behaviour", fmt ("played alike, the two differ after step %zu: NCL ", i) + v[i] + " table " + (i < w.size () ? w[i] : S ("ended")));
    }
}
static S diff_docs (Document *a, Document *b)
{
  // replace formulas by a canonical one before comparing the texts
  S x, y;
  for (int i = 0; i < 2; i++)
    {
      Document *d = i ? b : a; S s; std::set<S> out;
      for (auto o : *d->getObjects ())
        {
          S t; if (auto c = dynamic_cast<Context *> (o)) { int k = 0; for (auto &l : *c->getLinks ()) { t += fmt ("link %d:", k++); for (auto &q : l.first) t += " " + (q.predicate ? norm (formula (q.predicate)).str () : S ("-")); } }
          if (auto w = dynamic_cast<Switch *> (o)) for (auto &q : *w->getRules ()) t += " rule " + norm (formula (q.second)).str ();
          out.insert (o->getId () + ": " + t);
        }
      for (auto &z : out) s += z + "\n";
      std::string u = dump2 (d); S v; size_t p = 0;                      // drop " if ..." tails
      while (p < u.size ()) { size_t e = u.find ('\n', p); S ln = u.substr (p, e - p); size_t f = ln.find (" if "); v += (f == S::npos ? ln : ln.substr (0, f)) + "\n"; p = e + 1; }
      (i ? y : x) = v + s;
    }
  if (x == y) return "";
  size_t i = 0; while (i < x.size () && i < y.size () && x[i] == y[i]) i++;
  auto line = [&] (const S &s) { size_t q = i ? s.rfind ('\n', i - 1) : S::npos; q = q == S::npos ? 0 : q + 1; return s.substr (q, s.find ('\n', q) - q); };
  return "the table form differs: NCL '" + line (x) + "', table '" + line (y) + "'";
}

static Pr atom (const S &l, const S &t, const S &r) { Pr p; p.op = 'a'; p.l = l; p.t = t; p.r = r; return p; }
static Pr op (char c, std::vector<Pr> k) { Pr p; p.op = c; p.k = k; return p; }
static Pr T_ () { Pr p; p.op = 'T'; return p; }
static Nd M (const S &id, int v = 0)
{
  Nd n; n.kind = 'm'; n.id = id;
  switch (v)
    {
    case 1: n.props = { { "x", "1" } }; break;
    case 2: n.areas = { { "a" + id, "1s", "2s" } }; break;
    case 3: n.props = { { "x", "1" }, { "y", "a b" }, { "explicitDur", "4s" }, { "left", "10%" } }; n.areas = { { "a" + id, "1s", "" }, { "b" + id, "", "3s" }, { "c" + id, "", "" } }; break;
    case 4: n.trans["transIn"] = { { "type", "barWipe" }, { "dur", "1s" } }; n.trans["transOut"] = { { "type", "fade" }, { "subtype", "crossfade" }, { "fadeColor", "red" }, { "direction", "reverse" } }; n.props = { { "zIndex", "2" }, { "x", "" } }; break;
    case 5: n.props = { { "focusIndex", "1" }, { "x", "2" }, { "transparency", "50%" } }; n.trans["transIn"] = { { "type", "fade" }, { "startProgress", "0.5" }, { "endProgress", "1" }, { "horzRepeat", "2" }, { "vertRepeat", "3" }, { "borderWidth", "4" }, { "borderColor", "blue" } }; break;
    }
  return n;
}
static Nd C (const S &id, std::vector<Nd> k) { Nd n; n.kind = 'c'; n.id = id; n.kids = k; return n; }
static Nd W (const S &id, std::vector<Nd> k) { Nd n; n.kind = 's'; n.id = id; n.kids = k; return n; }

static void families (Spec &sp, bool th, bool lite = false)
{
  // 1. shapes x media variants x ports
  auto shapes = [] (int s, int v, int u) {
    switch (s)
      {
      case 0: return C ("b", { M ("m", v) });
      case 1: return C ("b", { M ("m", v), M ("n", u) });
      case 2: return C ("b", { C ("c", { M ("m", v) }), M ("n", u) });
      case 3: return C ("b", { C ("c", { M ("m", v), M ("n", u), M ("o") }) });
      case 4: return C ("b", { W ("s", { M ("m", v), M ("n", u) }), M ("o") });
      case 5: return C ("b", { W ("s", { M ("m", v), C ("c", { M ("n", u) }), W ("t", { M ("o"), M ("q") }) }) });
      case 6: return C ("b", { C ("c", { C ("d", { M ("m", v) }), M ("n", u) }), M ("o") });
      default: return C ("b", { M ("m", v), C ("c", { W ("s", { M ("n", u), M ("o"), M ("q") }) }), C ("e", {}), W ("t", {}) });
      } };
  struct Acc { static void events (const Nd &n, std::vector<S> &v) { for (auto &k : n.kids) { v.push_back (k.id + "@lambda"); if (k.kind == 'm') { for (auto &a : k.areas) v.push_back (k.id + "@" + a[0]); for (auto &p : k.props) v.push_back (k.id + "." + p.first); } } }
    static Nd *find (Nd &n, const S &id) { if (n.id == id) return &n; for (auto &k : n.kids) if (Nd *r = find (k, id)) return r; return nullptr; } };
  auto ports = [=] (uint64_t i, Nd &d) {
    Dec x (i); int s = x.next (8), v = x.next (6), u = x.next (6), a = x.next (9), b = x.next (9), in = x.next (2); d = shapes (s, v, u);
    Nd *c = in ? s == 6 || s == 2 || s == 3 || s == 5 || s == 7 ? Acc::find (d, "c") : nullptr : &d; if (!c || c->kind != 'c') return false;
    std::vector<S> e; Acc::events (*c, e);
    if (a > (int) e.size () || b > (int) e.size () || (a == 0 && b)) return false;
    if (a) c->ports.push_back (e[a - 1]);
    if (b) c->ports.push_back (e[b - 1]);
    if (in && c->id == "c" && s != 5) d.ports.push_back ("c@lambda");
    return true; };
  sp.families.push_back ({ "shapes, contents and ports", 8 * 6 * 6 * 9 * 9 * 2, [=] (uint64_t i, Rep &r) { Nd d; if (ports (i, d)) judge2 (d, th || i / 48 % 6 < 2, r); }, [=] (uint64_t i) { Nd d; return ports (i, d) ? lua (d) : S ("-"); } });
  // 2. links
  auto preds = std::make_shared<std::vector<Pr>> (std::vector<Pr> { Pr (), atom ("$m.x", "==", "1"), atom ("$n.x", "!=", "$m.x"), atom ("2", "<", "1"), op ('!', { atom ("$m.x", ">=", "0") }), op ('&', { atom ("$m.x", "<=", "1"), atom ("$n.x", ">", "1") }), op ('|', { op ('!', { atom ("$m.x", "==", "1") }), op ('&', { atom ("a", "==", "a"), atom ("$n.x", "==", "2") }) }) });
  if (lite) *preds = { (*preds)[0], (*preds)[6] }; // the last one uses every form
  std::vector<Ac> cs, as;
  static const char *TR[] = { "start", "stop", "pause", "resume", "abort" };
  for (auto t : TR) for (S e : { "m@lambda", "m@am", "m.x", "m<RED>", "c@lambda" }) { Ac a; a.tr = t; a.ev = e; cs.push_back (a); }
  for (auto t : TR) for (S e : { "n@lambda", "n@an", "c@lambda" }) for (int dl = 0; dl < 2; dl++) { Ac a; a.tr = t; a.ev = e; if (dl) a.delay = "1s"; as.push_back (a); }
  for (S v : { "5", "$m.x", "" }) for (int k = 0; k < 4; k++) { Ac a; a.tr = k % 2 ? "set" : "start"; a.ev = "n.x"; a.value = v; if (k & 2) a.delay = "1s"; if (k == 1 || k == 2) a.dur = "2s"; if (v == "$m.x") a.value = "7"; as.push_back (a); }
  auto pc = std::make_shared<std::vector<Ac>> (cs), pa = std::make_shared<std::vector<Ac>> (as);
  auto body = [] () { Nd m = M ("m", 1); m.areas = { { "am", "1s", "2s" } }; Nd n = M ("n", 1); n.areas = { { "an", "1s", "" } }; Nd d = C ("b", { m, n, C ("c", { M ("o") }) }); d.ports = { "m@lambda" }; return d; };
  auto one = [=] (uint64_t i) { Dec x (i); Nd d = body (); Lk l; Ac c = (*pc)[x.next (pc->size ())]; c.p = (*preds)[x.next (preds->size ())]; l.c = { c }; l.a = { (*pa)[x.next (pa->size ())] }; d.links = { l }; return d; };
  sp.families.push_back ({ "one link: condition x predicate x action", pc->size () * preds->size () * pa->size (), [=] (uint64_t i, Rep &r) { judge2 (one (i), true, r); }, [=] (uint64_t i) { return lua (one (i)); } });
  auto two = [=] (uint64_t i) { Dec x (i); Nd d = body (); Lk l, k; Ac c = (*pc)[x.next (pc->size ())], c2 = (*pc)[x.next (pc->size ())]; c.p = (*preds)[x.next (3)]; c2.p = (*preds)[2 * x.next (2)]; int sh = x.next (3); Ac a = (*pa)[x.next (pa->size ())], a2 = (*pa)[(i * 7 + 3) % pa->size ()];
    if (sh == 0) { l.c = { c, c2 }; l.a = { a, a2 }; d.links = { l }; } else if (sh == 1) { l.c = { c }; l.a = { a, a2, a }; k.c = { c2 }; k.a = { a2 }; d.links = { l, k }; } else { l.c = { c, c2, c }; l.a = { a }; k = l; d.links = { k, l, k }; }
    return d; };
  sp.families.push_back ({ "several conditions, actions and links", pc->size () * pc->size () * 3 * 2 * 3 * (th ? pa->size () : 4), [=] (uint64_t i, Rep &r) { judge2 (two (i), th, r); }, [=] (uint64_t i) { return lua (two (i)); } });
  // 3. switches and their rules
  auto rp = std::make_shared<std::vector<Pr>> (std::vector<Pr> { atom ("$__settings__.v", "==", "1"), atom ("$__settings__.v", "!=", "1"), op ('!', { atom ("$__settings__.u", "==", "1") }), op ('&', { atom ("$__settings__.v", "<", "1"), atom ("$__settings__.u", "<=", "") }), op ('|', { atom ("$__settings__.v", ">", "1"), op ('!', { atom ("$__settings__.v", ">=", "2") }) }) });
  auto sw = [=] (uint64_t i) { Dec x (i); Nd s = W ("s", { M ("m", 2), M ("n"), C ("c", { M ("o") }), W ("t", { M ("q"), M ("r") }) }); s.kids[2].ports = { "o@lambda" }; static const char *K[] = { "m", "n", "c", "t" };
    int dc = x.next (5), nr = 0; uint64_t n = 1; while (x.v / 2 >= n) { x.v -= n * 2; n *= 20; nr++; }
    for (int k = 0; k < nr; k++) { Pr p = (*rp)[x.next (rp->size ())]; s.rules.push_back ({ K[x.next (4)], p }); }
    if (dc) s.rules.push_back ({ K[dc - 1], T_ () });
    s.kids[3].rules = { { "r", (*rp)[1] }, { "q", T_ () } }; Nd d = x.next (2) ? C ("b", { C ("c0", { s }) }) : C ("b", { s }); if (d.kids[0].kind == 'c') { d.kids[0].ports = { "s@lambda" }; d.ports = { "c0@lambda" }; } else d.ports = { "s@lambda" }; return d; };
  sp.families.push_back ({ "switches and rules", (uint64_t) 5 * 2 * (1 + 20 + 400 + 8000), [=] (uint64_t i, Rep &r) { judge2 (sw (i), th || i < 5 * 2 * (1 + 20 + 400), r); }, [=] (uint64_t i) { return lua (sw (i)); } });
  // 4. tables that are no presentation
  static const char *GOOD = "return {'context','b',{},{'m@lambda','c@lambda'},{{'media','m',{x='1',transIn={type='fade',dur='1s'}},{{'a','1s','2s'}}},{'context','c',{},{'o@lambda'},{{'media','o'}}},{'switch','s',{{'media','n'},{'media','p'}},{{'n',{'$m.x','==','1'}},{'p',{'not',{'and',{true},{false}}}}}}},{{{{'start','m@a',{'or',{'$m.x','==','1'},{true}}},{'stop','m<RED>'}},{{'set','m.x','2',{delay='1s',duration='1s'}},{'stop','m@lambda'}}}}}";
  auto toks = std::make_shared<std::vector<std::pair<size_t, size_t>>> ();
  { S g = GOOD; for (size_t i = 7; i < g.size (); i++) { if (g[i] == '\'') { size_t e = g.find ('\'', i + 1); toks->push_back ({ i, e + 1 }); i = e; } else if (g[i] == '{') { int d = 0; size_t e = i; do { if (g[e] == '\'') e = g.find ('\'', e + 1); else if (g[e] == '{') d++; else if (g[e] == '}') d--; e++; } while (d); toks->push_back ({ i, e }); } else if (!g.compare (i, 4, "true") || !g.compare (i, 5, "false")) { size_t n = g[i] == 't' ? 4 : 5; toks->push_back ({ i, i + n }); i += n - 1; } } }
  static const char *REP[] = { "nil", "''", "'zz'", "{}", "5", "true", "'zz@lambda'", "'m@zz'", "'m.zz'", "'m<'", "'<>'", "'@'", "'.'", "{'media','z'}", "{'context','z',{}}", "{{}}", "{'zz'}", "function() end", "'m@lambda'", "'context'", "{[2]='m@lambda'}", "'-1s'", "{{'m@lambda'}}", "{true}", "{'not'}", "{'a','~','b'}", "{'m',{true}}" };
  const uint64_t NR = sizeof REP / sizeof *REP;
  auto text = [=] (uint64_t i) { S g = GOOD; auto t = (*toks)[i / NR]; return g.substr (0, t.first) + REP[i % NR] + g.substr (t.second); };
  sp.families.push_back ({ "a table with one part replaced: refused with a message or read consistently", toks->size () * NR, [=] (uint64_t i, Rep &r) {
      S t = text (i), m; r.say (t); Document *d = ParserLua::parseBuffer (t.data (), t.size (), &m); r.steps++; r.nontrivial = true; r.state (d ? "ok" : m.substr (0, 40)); if (!d) r.note = " (refused table)";
      if (!d && m == "") r.fail ("no-message", "refused without a message");
      if (d) { S s = tree::inconsistent (d, {}); if (s != "") r.fail ("consistency", s); for (auto c : *d->getContexts ()) { for (auto e : *c->getPorts ()) if (!e) r.fail ("null", "a port without event"); for (auto &l : *c->getLinks ()) for (auto *z : { &l.first, &l.second }) for (auto &q : *z) if (!q.event) r.fail ("null", "a link without event"); } for (auto w : *d->getSwitches ()) for (auto &q : *w->getRules ()) if (!q.first || !q.second) r.fail ("null", "a rule without component or formula"); }
      delete d; }, [=] (uint64_t i) { return text (i); } });
  sp.families.push_back ({ "truncated tables, not tables", strlen (GOOD) + 1, [=] (uint64_t i, Rep &r) { S t = i == strlen (GOOD) ? S ("return 5") : S (GOOD).substr (0, i), m; r.say (t); Document *d = ParserLua::parseBuffer (t.data (), t.size (), &m); r.steps++; if (d || m == "") r.fail ("accepted", "not refused with a message"); delete d; }, [=] (uint64_t i) { return fmt ("first %d bytes", (int) i); } });
}
}
