// An independent reading of the NCL profile: element trees, which elements of
// a tree are in error, and what a correct document denotes.
#ifndef GRAM_H
#define GRAM_H
#include "vf.h"
#include "Event.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <cstring>
#include <cmath>

namespace gram {
typedef std::string S;
using vf::fmt;

struct El
{
  S tag; std::vector<std::pair<S, S>> at; std::vector<El> kids; int line = 0; S text;
  const S *get (const S &n) const { for (auto &a : at) if (a.first == n) return &a.second; return nullptr; }
  S val (const S &n, const S &d = "") const { auto p = get (n); return p ? *p : d; }
  bool has (const S &n) const { return get (n) != nullptr; }
  void set (const S &n, const S &v) { for (auto &a : at) if (a.first == n) { a.second = v; return; } at.push_back ({ n, v }); }
  void drop (const S &n) { for (size_t i = 0; i < at.size (); i++) if (at[i].first == n) { at.erase (at.begin () + i); return; } }
};
// reads the small XML subset the harness writes its documents in
inline El read (const S &s, size_t &p)
{
  El e; p = s.find ('<', p) + 1;
  while (isalnum (s[p]) || s[p] == '-' || s[p] == '_') e.tag += s[p++];
  for (;;)
    {
      while (isspace (s[p])) p++;
      if (s[p] == '/') { p += 2; return e; }
      if (s[p] == '>') { p++; break; }
      S n, v; while (s[p] != '=') n += s[p++];
      p++; char q = s[p++]; while (s[p] != q) v += s[p++];
      p++; e.at.push_back ({ n, v });
    }
  for (;;)
    {
      size_t l = s.find ('<', p);
      if (s.compare (l, 4, "<!--") == 0) { size_t q = s.find ("-->", l) + 3; if (e.kids.empty ()) e.text += s.substr (p, q - p); p = q; continue; }
      if (s[l + 1] == '/') { if (e.kids.empty ()) e.text += s.substr (p, l - p); p = s.find ('>', l) + 1; return e; }
      e.kids.push_back (read (s, p));
    }
}
inline El read (const S &s) { size_t p = 0; return read (s, p); }
inline S esc (const S &v)
{
  S r; for (char c : v) if (c == '&') r += "&amp;"; else if (c == '<') r += "&lt;"; else if (c == '"') r += "&quot;"; else r += c;
  return r;
}
// one start tag per line; sets El::line
inline void print (El &e, S &out, int &line)
{
  e.line = line; out += "<" + e.tag;
  for (auto &a : e.at) out += " " + a.first + "=\"" + esc (a.second) + "\"";
  if (e.kids.empty ()) { for (char c : e.text) line += c == '\n'; out += e.text == "" ? "/>\n" : ">" + e.text + "</" + e.tag + ">\n"; line++; return; }
  out += ">\n"; line++;
  for (auto &k : e.kids) print (k, out, line);
  out += "</" + e.tag + ">\n"; line++;
}
inline S print (El &e) { S s; int l = 1; print (e, s, l); return s; }
inline void walk (El &e, std::vector<El *> &v) { v.push_back (&e); for (auto &k : e.kids) walk (k, v); }
inline void walk (const El &e, std::vector<const El *> &v) { v.push_back (&e); for (auto &k : e.kids) walk (k, v); }

enum { R = 1, N = 2, M = 4, I = 8, F = 16, U = 32 }; // required, non-empty, name, id, reference, unique
struct Gr { std::vector<S> parents; std::map<S, int> at; };
inline const std::map<S, Gr> &grammar ()
{
  const int ID = R | N | M | I | U, OID = N | M | I | U, REF = R | N | M | F, OREF = N | M | F, NAME = R | N | M;
  static const std::map<S, Gr> g = {
    { "ncl", { {}, { { "id", OID }, { "title", 0 }, { "schemaLocation", 0 }, { "xmlns", 0 } } } },
    { "head", { { "ncl" }, {} } },
    { "regionBase", { { "head" }, { { "id", OID }, { "device", 0 }, { "region", 0 } } } },
    { "region", { { "region", "regionBase" }, { { "id", ID }, { "title", 0 }, { "left", 0 }, { "right", 0 }, { "top", 0 }, { "bottom", 0 }, { "height", 0 }, { "width", 0 }, { "zIndex", 0 } } } },
    { "descriptorBase", { { "head" }, { { "id", OID } } } },
    { "descriptor", { { "descriptorBase" }, { { "id", ID }, { "player", 0 }, { "explicitDur", 0 }, { "region", OREF }, { "freeze", 0 }, { "moveLeft", 0 }, { "moveRight", 0 }, { "moveUp", 0 }, { "moveDown", 0 }, { "focusIndex", 0 }, { "focusBorderColor", 0 }, { "focusBorderWidth", 0 }, { "focusBorderTransparency", 0 }, { "focusSrc", 0 }, { "focusSelSrc", 0 }, { "selBorderColor", 0 }, { "transIn", 0 }, { "transOut", 0 }, { "left", 0 }, { "right", 0 }, { "top", 0 }, { "bottom", 0 }, { "height", 0 }, { "width", 0 }, { "zIndex", 0 } } } },
    { "descriptorParam", { { "descriptor" }, { { "name", NAME }, { "value", R } } } },
    { "connectorBase", { { "head" }, { { "id", OID } } } },
    { "causalConnector", { { "connectorBase" }, { { "id", ID } } } },
    { "connectorParam", { { "causalConnector" }, { { "name", N | M }, { "type", 0 } } } },
    { "compoundCondition", { { "causalConnector", "compoundCondition" }, { { "operator", 0 }, { "delay", 0 } } } },
    { "simpleCondition", { { "causalConnector", "compoundCondition" }, { { "role", NAME }, { "eventType", 0 }, { "key", 0 }, { "transition", 0 }, { "delay", 0 }, { "min", 0 }, { "max", 0 }, { "qualifier", 0 } } } },
    { "compoundAction", { { "causalConnector", "compoundAction" }, { { "operator", 0 }, { "delay", 0 } } } },
    { "simpleAction", { { "causalConnector", "compoundAction" }, { { "role", NAME }, { "eventType", 0 }, { "actionType", 0 }, { "duration", 0 }, { "value", 0 }, { "delay", 0 }, { "min", 0 }, { "max", 0 }, { "qualifier", 0 }, { "repeat", 0 }, { "repeatDelay", 0 }, { "by", 0 } } } },
    { "compoundStatement", { { "compoundCondition", "compoundStatement" }, { { "operator", R }, { "isNegated", 0 } } } },
    { "assessmentStatement", { { "compoundCondition", "compoundStatement" }, { { "comparator", R } } } },
    { "attributeAssessment", { { "assessmentStatement" }, { { "role", NAME }, { "eventType", 0 }, { "key", 0 }, { "attributeType", 0 }, { "offset", 0 } } } },
    { "valueAssessment", { { "assessmentStatement" }, { { "value", R } } } },
    { "ruleBase", { { "head" }, { { "id", OID } } } },
    { "compositeRule", { { "ruleBase", "compositeRule" }, { { "id", ID }, { "operator", R } } } },
    { "rule", { { "ruleBase", "compositeRule" }, { { "id", ID }, { "var", NAME }, { "comparator", R }, { "value", R } } } },
    { "transitionBase", { { "head" }, { { "id", OID } } } },
    { "transition", { { "transitionBase" }, { { "id", ID }, { "type", NAME }, { "subtype", N | M }, { "dur", 0 }, { "startProgress", 0 }, { "endProgress", 0 }, { "direction", 0 }, { "fadeColor", 0 }, { "horzRepeat", 0 }, { "vertRepeat", 0 }, { "borderWidth", 0 }, { "borderColor", 0 } } } },
    { "importBase", { { "connectorBase", "descriptorBase", "regionBase", "ruleBase", "transitionBase", "fontBase" }, { { "alias", NAME }, { "documentURI", R }, { "region", 0 }, { "baseId", 0 } } } },
    { "fontBase", { { "head" }, {} } },
    { "font", { { "fontBase" }, { { "fontFamily", R }, { "src", R }, { "fontStyle", 0 }, { "fontWeight", 0 } } } },
    { "body", { { "ncl" }, { { "id", OID } } } },
    { "context", { { "body", "context", "switch" }, { { "id", ID }, { "refer", OREF } } } },
    { "port", { { "body", "context" }, { { "id", ID }, { "component", REF }, { "interface", OREF } } } },
    { "switch", { { "body", "context", "switch" }, { { "id", ID }, { "refer", OREF } } } },
    { "switchPort", { { "switch" }, { { "id", ID } } } },
    { "mapping", { { "switchPort" }, { { "component", REF }, { "interface", OREF } } } },
    { "bindRule", { { "switch" }, { { "constituent", REF }, { "rule", REF } } } },
    { "defaultComponent", { { "switch" }, { { "component", REF } } } },
    { "media", { { "body", "context", "switch" }, { { "id", ID }, { "src", 0 }, { "type", 0 }, { "descriptor", OREF }, { "refer", OREF }, { "instance", 0 } } } },
    { "area", { { "media" }, { { "id", ID }, { "begin", 0 }, { "end", 0 }, { "label", 0 } } } },
    { "property", { { "body", "context", "media" }, { { "name", NAME }, { "value", 0 } } } },
    { "link", { { "body", "context" }, { { "id", OID }, { "xconnector", REF } } } },
    { "linkParam", { { "link" }, { { "name", NAME }, { "value", R } } } },
    { "bind", { { "link" }, { { "role", NAME }, { "component", REF }, { "interface", OREF } } } },
    { "bindParam", { { "bind" }, { { "name", NAME }, { "value", R } } } },
  };
  return g;
}

typedef ginga::Event E;
struct EvKey { S obj; int type; S id; bool operator< (const EvKey &o) const { return std::tie (obj, type, id) < std::tie (o.obj, o.type, o.id); } bool operator== (const EvKey &o) const { return obj == o.obj && type == o.type && id == o.id; }
  S str () const { return obj + (type == E::ATTRIBUTION ? "." : type == E::SELECTION ? "<" : type == E::LOOKAT ? "^" : "@") + id; } };
// formulas: op 'a' atom, '&', '|', '!', 'T', 'F'
struct Fm { char op = 'T'; S l, t, r; std::vector<Fm> k;
  S str () const { if (op == 'a') return l + " " + t + " " + r; S s (1, op); s += "("; for (auto &x : k) s += x.str () + ","; return s + ")"; } };
struct Act { EvKey ev; int tr; S value, duration, delay; bool pred = false; Fm f; };
struct Lnk { std::vector<Act> cond, act; };
struct Evt { unsigned long long begin = 0, end = (unsigned long long) -1; S label; bool timed = false; };
struct Ob { S id, parent; char kind; std::set<S> aliases; std::map<S, S> props; std::map<EvKey, Evt> evs;
  std::vector<EvKey> ports; std::vector<Lnk> links; std::vector<std::pair<S, Fm>> rules; std::map<S, std::vector<EvKey>> sports; std::set<S> loose; /* properties whose value is not predicted exactly */ };

inline bool name_ok (const S &v) { for (unsigned char c : v) if (!(isalnum (c) && c < 128) && !strchr ("-_:.#", c)) return false; return true; }
// number with optional unit; 0 malformed, 1 good
inline bool time_ok (const S &s, double &v)
{
  if (s == "") return false;
  const char *p = s.c_str (); char *q; v = strtod (p, &q);
  if (q == p) return false;
  if (*q == 's' && !q[1]) return v >= 0;
  return *q == 0 && v >= 0;
}
inline bool pct_ok (const S &s) { const char *p = s.c_str (); char *q; strtod (p, &q); if (q == p) return false; return *q == 0 || !strcmp (q, "%") || !strcmp (q, "px"); }

class Doc
{
public:
  std::map<int, S> bad;      // offending line -> why
  S dc;                      // why acceptance is not judged (empty: judged)
  S dcstruct;                // why the structure is not judged
  std::map<S, Ob> ob;        // what it denotes
  int w = 800, h = 600;

  explicit Doc (const El &root, int w_ = 800, int h_ = 600) : w (w_), h (h_) { run (root); }
  bool good () const { return bad.empty (); }

private:
  struct Comp { S id; const El *el; };
  std::map<S, S> ids;
  std::map<S, const El *> byid;           // element by id
  std::map<const El *, const El *> par;
  std::vector<const El *> all;            // well-placed elements, document order
  std::map<const El *, S> scope_of;       // composition element -> object id
  std::map<S, S> media_of;                // media element id -> object id it denotes
  std::map<S, std::vector<S>> elt_ids;    // composition object id -> ids declared in it
  std::set<S> special;                    // refer / settings media ids (any scope)
  struct Role { S name; bool cond; int type, tr; S value, key, duration, delay; bool hasf = false; Fm f; };
  struct Conn { std::vector<Role> roles; std::set<S> tests; };
  std::map<S, Conn> conns;
  std::map<S, Fm> rules;
  std::map<S, std::map<S, S>> regions, descs; std::map<S, std::set<S>> rloose;

  void err (const El *e, const S &why) { bad.insert ({ e->line, why }); }

  void place (const El *e, const El *p)
  {
    auto &g = grammar ();
    auto it = g.find (e->tag);
    if (p) par[e] = p;
    bool ok = true;
    if (it == g.end ()) { err (e, "unknown element"); if (p) err (p, "unknown child"); ok = false; }
    else if (p ? std::find (it->second.parents.begin (), it->second.parents.end (), p->tag) == it->second.parents.end () : e->tag != "ncl")
      { err (e, "misplaced"); if (p) err (p, "bad child"); ok = false; }
    if (ok) all.push_back (e);
    if (it != g.end ())
      {
        for (auto &a : it->second.at)
          {
            const S *v = e->get (a.first);
            if (!v) { if (a.second & R) err (e, "missing " + a.first); continue; }
            if ((a.second & N) && *v == "") err (e, "empty " + a.first);
            if ((a.second & M) && !name_ok (*v)) err (e, "bad name in " + a.first);
            if ((a.second & U) && v->compare (0, 9, "__unamed-") == 0) dc = "id reserved for unnamed elements";
            if (ok && (a.second & U) && *v != "")
              { if (*v == "__root__" || *v == "__settings__" || ids.count (*v)) err (e, "duplicate id " + *v); else { ids[*v] = e->tag; byid[*v] = e; } }
          }
        for (auto &a : e->at) if (!it->second.at.count (a.first)) err (e, "unknown attribute " + a.first);
      }
    for (auto &k : e->kids) place (&k, e);
  }
  const El *find (const S &id, std::initializer_list<const char *> tags)
  { auto it = byid.find (id); if (it == byid.end () || !it->second) return nullptr; for (auto t : tags) if (it->second->tag == t) return it->second; return nullptr; }

  Fm statement (const El *e, Conn &c)
  {
    Fm f;
    static const std::map<S, S> cmp = { { "eq", "==" }, { "ne", "!=" }, { "lt", "<" }, { "lte", "<=" }, { "gt", ">" }, { "gte", ">=" } };
    if (e->tag == "assessmentStatement")
      {
        auto it = cmp.find (e->val ("comparator"));
        if (it == cmp.end ()) err (e, "comparator");
        std::vector<S> side;
        for (auto &k : e->kids)
          {
            if (k.tag == "attributeAssessment") { c.tests.insert (k.val ("role")); side.push_back ("$" + k.val ("role")); }
            else if (k.tag == "valueAssessment") side.push_back (k.val ("value"));
            else continue;
            if (side.size () > 2) err (&k, "too many operands");
          }
        if (side.size () != 2) err (e, "operands");
        f.op = 'a'; f.t = it == cmp.end () ? "" : it->second;
        if (side.size () >= 2) { f.l = side[0]; f.r = side[1]; }
        return f;
      }
    S op = e->val ("operator");
    f.op = op == "and" ? '&' : op == "or" ? '|' : '!';
    if (op != "and" && op != "or" && op != "not") err (e, "operator");
    const S *neg = e->get ("isNegated");
    if (neg && *neg != "true" && *neg != "false")
      { if (*neg == "maybe" || *neg == "" || *neg == "x" || *neg == "a b" || *neg == "-1" || *neg == "50%" || ids.count (*neg)) err (e, "isNegated"); else dc = "boolean literal " + *neg; }
    for (auto &k : e->kids)
      if (k.tag == "compoundStatement" || k.tag == "assessmentStatement")
        { f.k.push_back (statement (&k, c)); if (op == "not" && f.k.size () > 1) { err (&k, "second operand of not"); err (e, "too many"); } }
    if (op == "not" ? f.k.empty () : f.k.size () < 2) err (e, "operands missing");
    if (neg && *neg == "true") { Fm n; n.op = '!'; n.k.push_back (f); return n; }
    return f;
  }
  void condition (const El *e, Conn &c, std::vector<std::vector<Fm>> inh, bool top)
  {
    if (e->tag == "compoundCondition" || e->tag == "compoundAction")
      {
        if (e->tag == "compoundCondition")
          {
            std::vector<Fm> mine;
            for (auto &k : e->kids) if (k.tag == "compoundStatement" || k.tag == "assessmentStatement") mine.push_back (statement (&k, c));
            inh.push_back (mine);
          }
        for (auto &k : e->kids) condition (&k, c, inh, false);
        return;
      }
    if (e->tag != "simpleCondition" && e->tag != "simpleAction") return;
    Role r; r.cond = e->tag == "simpleCondition"; r.name = e->val ("role");
    struct Res { const char *n; int t, tr; };
    static const Res res[] = { { "onBegin", E::PRESENTATION, E::START }, { "onEnd", E::PRESENTATION, E::STOP }, { "onAbort", E::PRESENTATION, E::ABORT }, { "onPause", E::PRESENTATION, E::PAUSE }, { "onResume", E::PRESENTATION, E::RESUME },
      { "onBeginAttribution", E::ATTRIBUTION, E::START }, { "onEndAttribution", E::ATTRIBUTION, E::STOP }, { "onSelection", E::SELECTION, E::START }, { "onBeginSelection", E::SELECTION, E::START }, { "onEndSelection", E::SELECTION, E::STOP },
      { "onLookAt", E::LOOKAT, E::START }, { "onLookAway", E::LOOKAT, E::STOP },
      { "start", E::PRESENTATION, E::START }, { "stop", E::PRESENTATION, E::STOP }, { "abort", E::PRESENTATION, E::ABORT }, { "pause", E::PRESENTATION, E::PAUSE }, { "resume", E::PRESENTATION, E::RESUME }, { "set", E::ATTRIBUTION, E::START } };
    static const std::map<S, int> types = { { "presentation", E::PRESENTATION }, { "attribution", E::ATTRIBUTION }, { "selection", E::SELECTION }, { "lookat", E::LOOKAT } };
    static const std::map<S, int> trs = { { "start", E::START }, { "starts", E::START }, { "stop", E::STOP }, { "stops", E::STOP }, { "abort", E::ABORT }, { "aborts", E::ABORT }, { "pause", E::PAUSE }, { "pauses", E::PAUSE }, { "resume", E::RESUME }, { "resumes", E::RESUME } };
    S tattr = r.cond ? "transition" : "actionType";
    const Res *x = nullptr; for (auto &q : res) if (r.name == q.n) x = &q;
    const S *et = e->get ("eventType"), *tt = e->get (tattr);
    auto it = et ? types.find (*et) : types.end (); auto jt = tt ? trs.find (*tt) : trs.end ();
    if (x)
      {
        r.type = x->t; r.tr = x->tr;
        if (r.cond != (r.name.compare (0, 2, "on") == 0)) err (e, "reserved role on the wrong side");
        if (et && (it == types.end () || it->second != x->t)) err (e, "reserved role overwritten");
        if (tt && (jt == trs.end () || jt->second != x->tr)) err (e, "reserved role overwritten");
      }
    else
      {
        if (it == types.end ()) err (e, "eventType");
        if (jt == trs.end ()) err (e, tattr);
        r.type = it == types.end () ? 0 : it->second; r.tr = jt == trs.end () ? 0 : jt->second;
      }
    if (!r.cond && r.type == E::ATTRIBUTION && !e->has ("value") && (x || it != types.end ())) err (e, "missing value");
    r.value = !r.cond && r.type == E::ATTRIBUTION ? e->val ("value") : "";
    if (!r.cond) { r.duration = e->val ("duration"); r.delay = e->val ("delay"); }
    if (r.type == E::SELECTION) r.key = e->val ("key");
    r.f.op = '&';
    for (auto &v : inh) for (auto &f : v) { r.f.k.push_back (f); r.hasf = true; }
    c.roles.push_back (r);
  }

  Fm rule (const El *e)
  {
    static const std::map<S, S> cmp = { { "eq", "==" }, { "ne", "!=" }, { "lt", "<" }, { "lte", "<=" }, { "gt", ">" }, { "gte", ">=" } };
    Fm f;
    if (e->tag == "rule")
      {
        auto it = cmp.find (e->val ("comparator")); if (it == cmp.end ()) err (e, "comparator");
        f.op = 'a'; f.l = "$__settings__." + e->val ("var"); f.t = it == cmp.end () ? "" : it->second; f.r = e->val ("value");
      }
    else
      {
        S op = e->val ("operator"); f.op = op == "and" ? '&' : op == "or" ? '|' : '!';
        if (op != "and" && op != "or" && op != "not") err (e, "operator");
        for (auto &k : e->kids) if (k.tag == "rule" || k.tag == "compositeRule")
          { f.k.push_back (rule (&k)); if (op == "not" && f.k.size () > 1) { err (e, "too many"); err (&k, "too many"); } }
      }
    rules[e->val ("id")] = f;
    return f;
  }
  void region (const El *e, double px, double py, double pw, double ph)
  {
    auto pc = [&] (const char *n, double base, double def) {
      const S *v = e->get (n); if (!v) return def;
      if (!pct_ok (*v)) { err (e, S ("malformed ") + n); return def; }
      double d = strtod (v->c_str (), nullptr); bool p = v->back () == '%';
      if (d < 0 || d > 1e6) dcstruct = "region out of range";
      return p ? (double) lround (d / 100. * base) : (double) lround (d); };
    double x = px, y = py, rw = pw, rh = ph;
    if (e->has ("left")) x += pc ("left", pw, 0);
    if (e->has ("top")) y += pc ("top", ph, 0);
    rw = pc ("width", pw, pw); rh = pc ("height", ph, ph);
    if (e->has ("right")) x += pw - rw - pc ("right", pw, 0);
    if (e->has ("bottom")) y += ph - rh - pc ("bottom", ph, 0);
    std::map<S, S> r;
    for (auto &a : e->at) if (a.first != "id") r[a.first] = a.second;
    r["left"] = fmt ("%g%%", x / w * 100); r["top"] = fmt ("%g%%", y / h * 100); r["width"] = fmt ("%g%%", rw / w * 100); r["height"] = fmt ("%g%%", rh / h * 100);
    r["zOrder"] = "0";
    S id = e->val ("id"); regions[id] = r; rloose[id] = { "left", "top", "width", "height", "zOrder" };
    for (auto &k : e->kids) if (k.tag == "region") region (&k, x, y, rw, rh);
  }

  // the object an element's component reference denotes within a composition
  S component (const El *e, const S &scope, const S &attr)
  {
    S c = e->val (attr);
    if (c == "") return "";
    auto &o = ob[scope];
    if (c == scope || o.aliases.count (c)) { if (e->tag == "port") dc = "port naming its own context"; if (e->tag == "mapping" || e->tag == "bindRule" || e->tag == "defaultComponent") { err (e, "the switch itself"); return ""; } return scope; }
    auto &v = elt_ids[scope];
    if (std::find (v.begin (), v.end (), c) != v.end ()) return media_of.count (c) ? media_of[c] : c;
    if (special.count (c) || c == "__settings__" || c == "__root__") { dc = "refer or settings media named from another scope"; return media_of.count (c) ? media_of[c] : c == "__settings__" ? c : ""; }
    for (auto &x : ob) if (x.second.parent == scope && x.second.aliases.count (c)) { dc = "alias"; return x.first; }
    err (e, "no such " + attr + " in scope: " + c);
    return "";
  }
  bool interface_ (const El *e, const S &scope, EvKey &out, int depth = 0)
  {
    S o = component (e, scope, "component");
    if (o == "") return false;
    const S *f = e->get ("interface");
    if (!f) { out = { o, E::PRESENTATION, "@lambda" }; return true; }
    if (*f == "") return false; // reported already
    auto &x = ob[o];
    EvKey p = { o, E::PRESENTATION, *f }, a = { o, E::ATTRIBUTION, *f };
    if (x.kind == 'm' || x.kind == 's')
      {
        if (x.evs.count (p)) { out = p; return true; }
        if (x.evs.count (a)) { out = a; return true; }
      }
    else if (x.kind == 'c')
      {
        if (o != scope)
          if (const El *q = find (*f, { "port" }))
            {
              if (scope_of[par[q]] == o) { bool r = interface_ (q, o, out, depth + 1); if (!r) { err (e, "bad port"); } return r; }
              if (x.evs.count (a)) dc = "property named like a port";
              err (e, "port of another context"); return false;
            }
        if (x.evs.count (a)) { out = a; return true; }
      }
    else if (x.sports.count (*f)) { out = p; return true; }
    err (e, "no such interface: " + *f);
    return false;
  }
  S param (const S &ref, const std::map<S, S> &b, const std::map<S, S> &l, const std::map<S, S> &ghost)
  {
    if (ref[0] != '$') return ref;
    S n = ref.substr (1), v;
    if (b.count (n)) v = b.at (n); else if (l.count (n)) v = l.at (n); else return "";
    if (v[0] == '$' && ghost.count (v.substr (1))) return ghost.at (v.substr (1));
    return v;
  }
  static void subst (Fm &f, const std::map<S, S> &m)
  {
    for (S *s : { &f.l, &f.r }) if ((*s)[0] == '$') { auto it = m.find (s->substr (1)); if (it != m.end ()) *s = it->second; }
    for (auto &k : f.k) subst (k, m);
  }
  static S fullid (const EvKey &k) { return "$" + k.obj + (k.type == E::ATTRIBUTION ? "." : "@") + (k.id[0] == '@' ? k.id.substr (1) : k.id); }

  void link (const El *e, const S &ctx)
  {
    S xc = e->val ("xconnector");
    const El *ce = find (xc, { "causalConnector" });
    if (!ce) { err (e, "no such connector"); }
    std::map<S, S> lp;
    struct B { const El *e; S role; std::map<S, S> p; EvKey ev; bool ok; };
    std::vector<B> bs;
    for (auto &k : e->kids)
      if (k.tag == "linkParam") lp[k.val ("name")] = k.val ("value");
      else if (k.tag == "bind")
        {
          B b; b.e = &k; b.role = k.val ("role");
          for (auto &q : k.kids) if (q.tag == "bindParam") b.p[q.val ("name")] = q.val ("value");
          b.ok = interface_ (&k, ctx, b.ev);
          bs.push_back (b);
        }
    if (!ce) return;
    auto &c = conns[xc];
    std::map<S, S> tests, ghosts; std::set<size_t> bound; std::vector<B *> tb;
    std::vector<std::pair<Role *, B *>> pairs;
    for (auto &b : bs)
      {
        bool hit = false;
        for (size_t i = 0; i < c.roles.size () && !hit; i++)
          if (c.roles[i].name == b.role) { pairs.push_back ({ &c.roles[i], &b }); bound.insert (i); hit = true; }
        if (hit) continue;
        if (c.tests.count (b.role)) { tests[b.role] = fullid (b.ev); tb.push_back (&b); }
        else ghosts[b.role] = fullid (b.ev);
      }
    for (size_t i = 0; i < c.roles.size (); i++) if (!bound.count (i)) err (e, "role " + c.roles[i].name + " not bound");
    for (auto &t : c.tests) { bool f = false; for (auto b : tb) f |= b->role == t; if (!f) err (e, "role " + t + " not bound"); }
    for (auto b : tb) for (auto &p : b->p) tests.insert (p);
    for (auto &p : lp) tests.insert (p);
    Lnk l;
    for (auto &pr : pairs)
      {
        Role &r = *pr.first; B &b = *pr.second; Act a;
        if (!b.ok) continue;
        a.ev = b.ev; a.tr = r.tr;
        switch (r.type)
          {
          case E::PRESENTATION: if (b.ev.type != E::PRESENTATION) err (b.e, "not a presentation event"); break;
          case E::ATTRIBUTION: if (b.ev.type != E::ATTRIBUTION) err (b.e, "not a property"); a.value = param (r.value, b.p, lp, ghosts); break;
          case E::SELECTION:
            if (b.ev.type == E::ATTRIBUTION || b.ev.id != "@lambda") err (b.e, "interface must be empty");
            a.value = param (r.key, b.p, lp, ghosts);
            a.ev = { b.ev.obj, E::SELECTION, a.value }; ob[b.ev.obj].evs[a.ev]; break;
          case E::LOOKAT: a.ev = { b.ev.obj, E::LOOKAT, b.ev.id }; ob[b.ev.obj].evs[a.ev]; break;
          }
        a.duration = param (r.duration, b.p, lp, ghosts); a.delay = param (r.delay, b.p, lp, ghosts);
        if (r.hasf) { a.pred = true; a.f = r.f; subst (a.f, tests); }
        (r.cond ? l.cond : l.act).push_back (a);
      }
    ob[ctx].links.push_back (l);
  }

  void objects (const El *e, const S &scope)
  {
    auto add = [&] (const S &id, const S &parent, char kind) -> Ob & {
      Ob &o = ob[id]; o.id = id; o.parent = parent; o.kind = kind; o.evs[{ id, E::PRESENTATION, "@lambda" }]; return o; };
    for (auto &k : e->kids)
      {
        S id = k.val ("id");
        if (k.tag == "media" && (e->tag == "body" || e->tag == "context" || e->tag == "switch"))
          {
            if (id == "" || byid[id] != &k) continue;
            elt_ids[scope].push_back (id);
            S type = k.val ("type");
            if (k.has ("refer"))
              {
                if (k.has ("type") || k.has ("src")) err (&k, "refer excludes type and src");
                special.insert (id); special.insert (k.val ("refer"));
                const El *t = find (k.val ("refer"), { "media" });
                if (!t) { if (k.val ("refer") != "") err (&k, "refers to no media"); media_of[id] = ""; }
                else if (t->has ("refer")) { err (&k, "refers to a reference"); media_of[id] = ""; }
                else media_of[id] = t->val ("type") == "application/x-ginga-settings" || t->val ("type") == "application/x-ncl-settings" ? S ("__settings__") : t->val ("id");
              }
            else if (type == "application/x-ginga-settings" || type == "application/x-ncl-settings")
              { media_of[id] = "__settings__"; special.insert (id); }
            else { add (id, scope, 'm'); ob[id].props["type"] = type; media_of[id] = id; if (k.val ("src") != "") { ob[id].props["uri"] = k.val ("src"); ob[id].loose.insert ("uri"); } }
          }
        else if ((k.tag == "context" || k.tag == "switch") && (e->tag == "body" || e->tag == "context" || e->tag == "switch"))
          {
            if (id == "" || byid[id] != &k) continue;
            elt_ids[scope].push_back (id); scope_of[&k] = id; add (id, scope, k.tag[0] == 'c' ? 'c' : 'w');
            objects (&k, id);
          }
        else if (k.tag == "body" && e->tag == "ncl")
          { scope_of[&k] = "__root__"; if (k.val ("id") != "") ob["__root__"].aliases.insert (k.val ("id")); objects (&k, "__root__"); }
      }
  }
  void run (const El &root)
  {
    place (&root, nullptr);
    // declared parts of the head
    for (auto e : all)
      {
        if (e->tag == "causalConnector")
          {
            Conn c; for (auto &k : e->kids) condition (&k, c, {}, true);
            int nc = 0, na = 0; for (auto &r : c.roles) (r.cond ? nc : na)++;
            if (!nc || !na) err (e, "connector without condition or action");
            conns[e->val ("id")] = c;
          }
        else if (e->tag == "ruleBase") { for (auto &k : e->kids) if (k.tag == "rule" || k.tag == "compositeRule") rule (&k); }
        else if (e->tag == "regionBase") { for (auto &k : e->kids) if (k.tag == "region") region (&k, 0, 0, w, h); }
        else if (e->tag == "font") err (e, "fonts are not available");
        else if (e->tag == "importBase") err (e, "nothing to import");
      }
    for (auto e : all)
      if (e->tag == "descriptor")
        {
          std::map<S, S> d; std::set<S> l;
          for (auto &a : e->at) d[a.first] = a.second;
          for (auto &k : e->kids) if (k.tag == "descriptorParam")
            { S n = k.val ("name"); if (n == "id" || n == "region" || n == "transIn" || n == "transOut") dc = "descriptorParam named like a reference"; d[n] = k.val ("value"); }
          if (const S *r = e->get ("region")) { if (*r != "") { if (!find (*r, { "region" })) err (e, "no such region"); else for (auto &a : regions[*r]) { if (a.first == "right" || a.first == "bottom") continue; /* resolved into left and top */ d[a.first] = a.second; if (rloose[*r].count (a.first)) l.insert (a.first); } } }
          for (const char *t : { "transIn", "transOut" })
            if (const S *v = e->get (t))
              {
                const El *x = find (*v, { "transition" });
                if (!x) { err (e, S ("no such transition in ") + t); continue; }
                S s = "{"; const char *def[][2] = { { "type", "" }, { "subtype", "" }, { "dur", "0" }, { "startProgress", "0" }, { "endProgress", "0" }, { "direction", "forward" }, { "fadeColor", "" }, { "horzRepeat", "0" }, { "vertRepeat", "0" }, { "borderWidth", "0" }, { "borderColor", "" } };
                for (auto &p : def) s += (s == "{" ? S () : S (",")) + p[0] + "='" + x->val (p[0], p[1]) + "'";
                d[t] = s + "}";
              }
          d.erase ("id"); d.erase ("region");
          descs[e->val ("id")] = d; rloose["desc " + e->val ("id")] = l;
        }
    // objects
    Ob &r = ob["__root__"]; r.id = "__root__"; r.kind = 'c'; r.evs[{ "__root__", E::PRESENTATION, "@lambda" }];
    Ob &s = ob["__settings__"]; s.id = "__settings__"; s.kind = 's'; s.parent = "__root__"; s.props["type"] = "application/x-ginga-settings";
    s.evs[{ "__settings__", E::PRESENTATION, "@lambda" }]; s.evs[{ "__settings__", E::ATTRIBUTION, "service.currentFocus" }];
    if (root.tag == "ncl" && root.val ("id") != "") r.aliases.insert (root.val ("id"));
    objects (&root, "");
    for (auto &m : media_of) if (m.second != "" && m.second != m.first) ob[m.second].aliases.insert (m.first);
    // anchors and properties
    for (auto e : all)
      {
        const El *p = par.count (e) ? par[e] : nullptr;
        if (e->tag == "area")
          {
            S m = media_of.count (p->val ("id")) ? media_of[p->val ("id")] : "";
            S id = e->val ("id"); Evt v; v.timed = true; double x;
            if (e->val ("label") != "")
              { if (e->has ("begin") || e->has ("end")) err (e, "label excludes begin and end"); v.label = e->val ("label"); v.timed = false; }
            else
              {
                if (const S *b = e->get ("begin")) { if (!time_ok (*b, x)) { if (*b == "") dc = "empty time"; else if (strchr (b->c_str (), ':') || (*b)[0] == '-') dc = "time " + *b; else err (e, "begin"); } else v.begin = (unsigned long long) llround (x * 1e9); }
                if (const S *b = e->get ("end")) { if (!time_ok (*b, x)) { if (*b == "") dc = "empty time"; else if (strchr (b->c_str (), ':') || (*b)[0] == '-') dc = "time " + *b; else err (e, "end"); } else v.end = (unsigned long long) llround (x * 1e9); }
              }
            if (m != "" && id != "" && byid.count (id) && byid[id] == e) ob[m].evs[{ m, E::PRESENTATION, id }] = v;
          }
        else if (e->tag == "property")
          {
            S o = p->tag == "media" ? (media_of.count (p->val ("id")) ? media_of[p->val ("id")] : S ()) : scope_of.count (p) ? scope_of[p] : S ();
            S n = e->val ("name"); if (o == "" || n == "") continue;
            if (ob[o].kind == 'm' && (n == "type" || n == "uri")) ob[o].loose.insert (n);
            ob[o].evs[{ o, E::ATTRIBUTION, n }];
            if (e->val ("value") != "") ob[o].props[n] = e->val ("value");
          }
        else if (e->tag == "switchPort") { S w = scope_of.count (p) ? scope_of[p] : S (); if (w != "") { ob[w].sports[e->val ("id")]; Evt v; v.label = e->val ("id"); ob[w].evs[{ w, E::PRESENTATION, e->val ("id") }] = v; } }
      }
    for (auto e : all)
      if (e->tag == "media" && e->has ("descriptor") && e->val ("descriptor") != "")
        {
          S d = e->val ("descriptor"); S o = media_of.count (e->val ("id")) ? media_of[e->val ("id")] : S ();
          if (!find (d, { "descriptor" })) { err (e, "no such descriptor"); continue; }
          if (o == "") continue;
          for (auto &a : descs[d])
            {
              EvKey k = { o, E::ATTRIBUTION, a.first };
              if (ob[o].evs.count (k)) continue;
              ob[o].evs[k]; ob[o].props[a.first] = a.second;
              if (rloose["desc " + d].count (a.first)) ob[o].loose.insert (a.first);
            }
        }
    // references
    for (auto e : all)
      {
        const El *p = par.count (e) ? par[e] : nullptr;
        S sc = p && scope_of.count (p) ? scope_of[p] : S ();
        if (e->tag == "port" && sc != "")
          {
            EvKey k; if (interface_ (e, sc, k)) { auto &v = ob[sc].ports; if (std::find (v.begin (), v.end (), k) == v.end ()) v.push_back (k); }
          }
        else if (e->tag == "mapping")
          {
            const El *w = par.count (p) ? par[p] : nullptr; S ws = w && scope_of.count (w) ? scope_of[w] : S ();
            EvKey k; if (ws != "" && interface_ (e, ws, k)) { if (k.type != E::PRESENTATION) err (e, "mapping to a property"); else ob[ws].sports[p->val ("id")].push_back (k); }
          }
        else if (e->tag == "bindRule" && sc != "")
          {
            S c = component (e, sc, "constituent");
            S r = e->val ("rule"); const El *re = find (r, { "rule", "compositeRule" });
            if (!re) err (e, "no such rule");
            if (c != "" && re) { Fm f = rules[r]; if (f.op != 'a' && f.k.empty ()) { f = Fm (); f.op = 'F'; } ob[sc].rules.push_back ({ c, f }); }
          }
        else if (e->tag == "link" && sc != "") link (e, sc);
      }
    for (auto e : all)
      if (e->tag == "defaultComponent" && scope_of.count (par[e]))
        { S sc = scope_of[par[e]]; S c = component (e, sc, "component"); Fm t; t.op = 'T'; if (c != "") ob[sc].rules.push_back ({ c, t }); }
  }
};
}
#endif
