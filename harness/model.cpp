#include "model.h"
namespace model {
const char *tname (Event::Transition t)
{ switch (t) { case Event::START: return "start"; case Event::STOP: return "stop"; case Event::PAUSE: return "pause"; case Event::RESUME: return "resume"; default: return "abort"; } }
const char *sname (Event::State s)
{ return s == Event::SLEEPING ? "sleeping" : s == Event::OCCURRING ? "occurring" : "paused"; }

Time parse_time (const std::string &s, bool *ok)
{
  // N[.N][s] or H:M:S ; empty = 0
  std::string t = s; bool good = true; double v = 0;
  while (!t.empty () && isspace ((unsigned char) t.back ())) t.pop_back ();
  if (t.find (':') != std::string::npos)
    {
      double h, m, x; char c;
      good = sscanf (t.c_str (), "%lf:%lf:%lf%c", &h, &m, &x, &c) == 3;
      if (good) v = 3600 * h + 60 * m + x;
    }
  else
    {
      if (!t.empty () && t.back () == 's') t.pop_back ();
      char *end; v = t.empty () ? 0 : strtod (t.c_str (), &end);
      if (!t.empty () && *end) good = false;
    }
  if (ok) *ok = good;
  return good ? (Time) (v * 1e9) : 0;
}

static Event *ev_of (const ginga::Action &a) { return a.event; }

void Model::init (ginga::Document *doc, const std::set<std::string> &names)
{
  universe = names;
  for (auto *ob : *doc->getObjects ())
    {
      MObj m; m.real = ob; m.id = ob->getId ();
      if (dynamic_cast<ginga::MediaSettings *> (ob)) m.kind = SETTINGS;
      else if (dynamic_cast<ginga::Media *> (ob)) m.kind = MEDIA;
      else if (dynamic_cast<ginga::Context *> (ob)) m.kind = CTX;
      else m.kind = SWITCH;
      int i = o.size (); omap[ob] = i; byid[m.id] = i; objorder.push_back (i);
      for (auto *ev : *ob->getEvents ())
        {
          MEvent x; x.real = ev; x.obj = i; x.type = ev->getType (); x.id = ev->getId (); x.label = ev->getLabel ();
          x.lambda = ev->isLambda (); ev->getInterval (&x.begin, &x.end); x.full = ev->getFullId ();
          if (x.type == Event::SELECTION) ev->getParameter ("key", &x.key);
          int k = e.size (); emap[ev] = k; if (x.lambda) m.lambda = k; m.evs.push_back (k); e.push_back (x);
        }
      for (auto &n : universe)
        {
          auto f = initial.find (m.id);
          std::string v = f == initial.end () ? "" : f->second.count (n) ? f->second.at (n) : "";
          if (v != "") m.props[n] = v;
        }
      o.push_back (m);
    }
  auto conv = [&] (const ginga::Action &a) {
    MAction m; m.ev = emap.at (ev_of (a)); m.tr = a.transition; m.pred = a.predicate; m.value = a.value; m.duration = a.duration; m.delay = a.delay; return m; };
  for (auto &m : o)
    {
      auto *p = m.real->getParent (); m.parent = p ? omap.at (p) : -1;
      if (m.kind == CTX || m.kind == SWITCH)
        for (auto *c : *((ginga::Composition *) dynamic_cast<ginga::Composition *> (m.real))->getChildren ()) m.kids.push_back (omap.at (c));
      if (m.kind == CTX)
        {
          auto *c = dynamic_cast<ginga::Context *> (m.real);
          for (auto *pe : *c->getPorts ()) m.ports.push_back (emap.at (pe));
          for (auto &l : *c->getLinks ())
            {
              std::vector<MAction> cs, as;
              for (auto &x : l.first) cs.push_back (conv (x));
              for (auto &x : l.second) { MAction a = conv (x); a.pred = nullptr; as.push_back (a); }
              m.links.push_back ({ cs, as });
            }
        }
      if (m.kind == SWITCH)
        {
          auto *s = dynamic_cast<ginga::Switch *> (m.real);
          for (auto &r : *s->getRules ()) m.rules.push_back ({ omap.at (r.first), r.second });
          for (auto &sp : *s->getSwitchPorts ())
            { std::vector<int> v; for (auto *x : sp.second) v.push_back (emap.at (x)); m.sports.push_back ({ sp.first, v }); }
        }
      for (auto &al : *m.real->getAliases ())
        {
          m.names.push_back (al.first);
          if (al.second) m.aliases.push_back (omap.at (al.second));
        }
      for (auto &n : m.names) if (!byid.count (n)) byid[n] = omap[m.real];
    }
  currentFocus = "";
  for (auto &m : o) if (m.kind == SETTINGS && m.props.count ("service.currentFocus")) currentFocus = m.props["service.currentFocus"];
  root = omap.at (doc->getRoot ()); settings = omap.at (doc->getSettings ());
}

int Model::find (const std::string &full) const
{
  for (size_t i = 0; i < e.size (); i++) if (e[i].full == full) return i;
  return -1;
}

bool Model::ref (const std::string &r, std::string *out) const
{
  if (r.empty () || r[0] != '$') return false;
  size_t d = r.find ('.');
  if (d == std::string::npos) return false;
  auto it = byid.find (r.substr (1, d - 1));
  if (it == byid.end ()) return false;
  auto p = o[it->second].props.find (r.substr (d + 1));
  *out = p == o[it->second].props.end () ? "" : p->second;
  return true;
}

bool Model::eval (ginga::Predicate *p) const
{
  using ginga::Predicate;
  switch (p->getType ())
    {
    case Predicate::FALSUM: return false;
    case Predicate::VERUM: return true;
    case Predicate::NEGATION: for (auto *c : *p->getChildren ()) return !eval (c); return true;
    case Predicate::CONJUNCTION: { bool r = true; for (auto *c : *p->getChildren ()) r = eval (c) && r; return r; }
    case Predicate::DISJUNCTION: { bool r = false; for (auto *c : *p->getChildren ()) r = eval (c) || r; return r; }
    default: break;
    }
  std::string l, r; Predicate::Test t; p->getTest (&l, &t, &r);
  std::string x;
  if (ref (l, &x)) l = x;
  if (ref (r, &x)) r = x;
  int c = l.compare (r);
  switch (t) { case Predicate::EQ: return c == 0; case Predicate::NE: return c != 0; case Predicate::LT: return c < 0;
    case Predicate::LE: return c <= 0; case Predicate::GT: return c > 0; default: return c >= 0; }
}

bool Model::is_child_awake (int k) const
{
  // a switch is awake while any of its presentation events (lambda or switchPort) is
  if (o[k].kind == SWITCH)
    { for (int x : o[k].evs) if (e[x].type == Event::PRESENTATION && e[x].state != Event::SLEEPING) return true; return false; }
  return !slp (k);
}
unsigned Model::awake (int c) const { unsigned n = 0; for (int k : o[c].kids) n += is_child_awake (k); return n; }

void Model::add_delayed (int ob, int ev, Event::Transition tr, const std::string &v, Time d)
{
  MAction a; a.ev = ev; a.tr = tr; a.value = v;
  if (o[ob].time == NONE || d == NONE) return;      // nothing can come of it
  o[ob].delayed.push_back ({ a, o[ob].time + d });
}
void Model::do_start (int ob)
{
  o[ob].time = 0;
  if (o[ob].props.count ("focusIndex") && o[ob].props["focusIndex"] != "") { hasNext = true; nextFocus = ""; }
}
void Model::do_stop (int ob)
{
  o[ob].time = NONE; o[ob].delayed.clear ();
  for (int x : o[ob].evs) e[x].state = Event::SLEEPING;
}

void Model::player_prop (int ob, const std::string &n, const std::string &v)
{
  if (n == "duration" || n == "explicitDur")
    o[ob].pdur = (v == "" || v == "indefinite") ? NONE : parse_time (v);
  else if (n == "focusIndex") o[ob].pfocus = v;
  else if (n == "bounds" || n == "location" || n == "size")
    {
      std::string d = v == "" ? (n == "bounds" ? "0%,0%,100%,100%" : n == "size" ? "100%,100%" : "0,0") : v;
      std::vector<std::string> it; size_t p = 0;
      for (;;) { size_t q = d.find (',', p); it.push_back (d.substr (p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; }
      for (auto &s : it) { while (!s.empty () && isspace ((unsigned char) s[0])) s.erase (0, 1); while (!s.empty () && isspace ((unsigned char) s.back ())) s.pop_back (); }
      const char *b[] = { "left", "top", "width", "height" };
      unsigned off = n == "size" ? 2 : 0;
      for (unsigned i = 0; i < it.size (); i++) set_prop (ob, b[i + off], it[i], 0);
    }
}
void Model::set_prop (int ob, const std::string &n, const std::string &v, Time dur)
{
  if (o[ob].kind == SETTINGS && n == "service.currentFocus") currentFocus = v;
  o[ob].props[n] = v;
  if ((o[ob].kind == MEDIA || o[ob].kind == SETTINGS) && o[ob].player && dur == 0) player_prop (ob, n, v);
}

bool Model::before (int ev, Event::Transition tr)
{
  MEvent &E = e[ev]; int ob = E.obj; MObj &O = o[ob];
  switch (O.kind)
    {
    case CTX:
      if (E.type == Event::ATTRIBUTION) return true;
      if (E.type != Event::PRESENTATION) return false;
      if (tr != Event::START)
        {
          for (int k : O.kids) if (o[k].kind == SWITCH)        // ... also when entered through a switchPort
            for (int x : std::vector<int> (o[k].evs)) if (e[x].type == Event::PRESENTATION && !e[x].lambda) trans (x, tr);
          for (int k : O.kids) trans (o[k].lambda, tr);
        }
      return true;
    case SWITCH:
      {
        if (E.type != Event::PRESENTATION) return false;
        if (tr == Event::START)
          {
            if (O.selected >= 0) return E.state == Event::PAUSED ? trans (o[O.selected].lambda, tr) : false;
            for (auto &r : O.rules)
              {
                int target = -1;
                if (E.lambda) target = o[r.first].lambda;
                else for (auto &sp : O.sports) if (sp.first == E.id) for (int x : sp.second)
                  { int c = e[x].obj; while (c >= 0 && c != r.first) c = o[c].parent; if (c == r.first) target = x; }
                if (target < 0) continue;
                if (eval (r.second))
                  {
                    if (!trans (target, tr)) return false;
                    o[ob].selected = r.first; return true;
                  }
              }
            return false;
          }
        if (O.selected >= 0)
          {
            trans (o[O.selected].lambda, tr);
            if (tr == Event::STOP || tr == Event::ABORT) O.selected = -1;
          }
        return true;
      }
    default:
      break;
    }
  // media
  if (E.type != Event::PRESENTATION) return !(tr == Event::PAUSE || tr == Event::RESUME);
  if (tr == Event::START)
    {
      if (O.parent >= 0 && o[O.parent].kind == CTX && slp (O.parent))
        { o[O.parent].fromport = true; trans (o[O.parent].lambda, Event::START); }
      if (E.state != Event::SLEEPING)
        ; // resumed
      else if (E.lambda)
        {
          O.player = true; O.pdur = NONE; O.pfocus = "";
          auto copy = O.props;
          for (auto &kv : copy) player_prop (ob, kv.first, kv.second);
        }
      else if (e[O.lambda].state == Event::SLEEPING)
        {
          trans (O.lambda, Event::START);
          Time b = E.begin == NONE ? 0 : E.begin;
          if (E.end != NONE)
            {
              player_prop (ob, "duration", vf::fmt ("%llu.%09llu", (unsigned long long) ((E.end - b) / 1000000000ull), (unsigned long long) ((E.end - b) % 1000000000ull)));
              add_delayed (ob, ev, Event::STOP, "", E.end);
            }
          // keep what lies inside [begin,end], relative to begin
          std::list<std::pair<MAction, Time>> keep; std::vector<int> go;
          for (auto &d : O.delayed)
            {
              if (d.second < b || (E.end != NONE && d.second > E.end))
                { Time ae = e[d.first.ev].end; if (d.first.tr == Event::START && d.second < b && ae >= b) go.push_back (d.first.ev); }
              else keep.push_back ({ d.first, d.second - b });
            }
          O.delayed = keep;
          for (int x : go) trans (x, Event::START);
        }
    }
  return true;
}

bool Model::after (int ev, Event::Transition tr)
{
  MEvent &E = e[ev]; int ob = E.obj; MObj &O = o[ob];
  if (E.type == Event::ATTRIBUTION && O.kind != SWITCH)
    {
      if (tr == Event::PAUSE || tr == Event::RESUME) return false;
      if (tr != Event::START) return true;
      std::string v = E.value, d = E.duration, x; Time dur = 0;
      if (ref (v, &x)) v = x;
      if (ref (d, &x)) d = x;
      dur = parse_time (d);
      set_prop (ob, E.id, v, dur);
      add_delayed (ob, ev, Event::STOP, v, dur);
      return true;
    }
  switch (O.kind)
    {
    case CTX:
      if (tr == Event::START)
        {
          do_start (ob);
          if (O.parent >= 0 && o[O.parent].kind == CTX && slp (O.parent))
            { o[O.parent].fromport = true; trans (o[O.parent].lambda, Event::START); }
          bool fp = o[ob].fromport; o[ob].fromport = false;
          if (!fp) for (int p : o[ob].ports) if (e[p].type == Event::PRESENTATION) add_delayed (ob, p, Event::START, "", 0);
        }
      else if (tr == Event::STOP || tr == Event::ABORT) do_stop (ob);
      return true;
    case SWITCH:
      if (tr == Event::START)
        {
          do_start (ob);
          if (O.parent >= 0 && o[O.parent].kind == CTX && slp (O.parent))
            { o[O.parent].fromport = true; trans (o[O.parent].lambda, Event::START); }
        }
      else if (tr == Event::STOP || tr == Event::ABORT) do_stop (ob);
      return true;
    default: break;
    }
  if (E.type != Event::PRESENTATION) return true;
  if (!E.lambda) return true;
  if (tr == Event::START)
    {
      do_start (ob);
      for (int x : O.evs)
        if (!e[x].lambda && e[x].type == Event::PRESENTATION && e[x].label == "")
          { add_delayed (ob, x, Event::START, "", e[x].begin); add_delayed (ob, x, Event::STOP, "", e[x].end); }
    }
  else if (tr == Event::STOP || tr == Event::ABORT)
    { O.player = false; do_stop (ob); }
  else
    for (int x : std::vector<int> (O.evs))
      if (!e[x].lambda && e[x].type == Event::PRESENTATION) { MAction a; a.ev = x; a.tr = tr; eval_action (a); }
  return true;
}

bool Model::trans (int ev, Event::Transition tr)
{
  Event::State cur = e[ev].state, nx;
  switch (tr)
    {
    case Event::START: if (cur == Event::OCCURRING) return false; nx = Event::OCCURRING; break;
    case Event::PAUSE: if (cur != Event::OCCURRING) return false; nx = Event::PAUSED; break;
    case Event::RESUME: if (cur != Event::PAUSED) return false; nx = Event::OCCURRING; break;
    default: if (cur == Event::SLEEPING) return false; nx = Event::SLEEPING; break;
    }
  if (!before (ev, tr) || e[ev].state != cur) return false;
  e[ev].state = nx;
  if (!after (ev, tr)) { e[ev].state = cur; return false; }
  log.push_back ({ ev, tr });
  return true;
}

std::vector<MAction> Model::in_ctx (const MAction &a, int ctx)
{
  std::vector<MAction> st;
  if (!o[ctx].links_on) return st;
  for (auto &l : o[ctx].links)
    for (auto &c : l.first)
      {
        if (c.ev != a.ev || c.tr != a.tr) continue;
        if (c.pred && !eval (c.pred)) continue;
        for (auto it = l.second.rbegin (); it != l.second.rend (); ++it)
          {
            std::string s;
            if (!ref (it->delay, &s)) s = it->delay;
            Time d = parse_time (s);
            if (d == 0) st.push_back (*it);
            else
              {
                if (o[ctx].time != NONE)
                  { MAction x = *it; x.delay = ""; o[ctx].delayed.push_back ({ x, o[ctx].time + d }); }
              }
          }
      }
  return st;
}

int Model::eval_action (MAction init)
{
  std::vector<MAction> st{ init };
  int n = 0;
  while (!st.empty ())
    {
      if (++budget > 4000) { overflow = true; return n; }
      MAction a = st.back (); st.pop_back ();
      e[a.ev].duration = a.duration;
      if (e[a.ev].type == Event::ATTRIBUTION) e[a.ev].value = a.value;
      if (!trans (a.ev, a.tr)) continue;
      n++;
      int ob = e[a.ev].obj, p = o[ob].parent;
      // a zero-length attribution on an object that is not playing ends at once
      if (e[a.ev].type == Event::ATTRIBUTION && a.tr == Event::START && slp (ob))
        { MAction s; s.ev = a.ev; s.tr = Event::STOP; s.value = a.value; st.push_back (s); }
      std::set<int> seen;
      auto trig = [&] (int c) { if (!seen.insert (c).second) return; auto r = in_ctx (a, c); st.insert (st.end (), r.begin (), r.end ()); };
      if (p >= 0 && o[p].kind == CTX && occ (p))
        {
          trig (p);
          int c = p;
          for (;;)
            {
              int g = o[c].parent;
              if (g < 0 || o[g].kind != CTX || !occ (g)) break;
              bool ported = false;
              for (int x : o[c].ports) if (e[x].obj == ob) ported = true;
              if (!ported) break;
              trig (g); c = g;
            }
        }
      else if (p >= 0 && o[p].kind == SWITCH)
        {
          for (auto &sp : o[p].sports)
            for (int x : sp.second)
              if (x == a.ev)
                for (int y : o[p].evs)
                  if (e[y].type == Event::PRESENTATION && e[y].id == sp.first) { MAction b = a; b.ev = y; eval_action (b); }
          // the end of the selected component ends the switch
          if (e[a.ev].lambda && (a.tr == Event::STOP || a.tr == Event::ABORT) && o[p].selected == ob)
            for (int y : std::vector<int> (o[p].evs))
              if (e[y].type == Event::PRESENTATION && e[y].state != Event::SLEEPING) { MAction b; b.ev = y; b.tr = a.tr; eval_action (b); }
        }
      if (o[ob].kind == CTX) trig (ob);
      else for (int c : o[ob].aliases)
        {
          // a component that refers to this object ends its switch too
          if (o[c].kind == SWITCH && o[c].selected == ob && e[a.ev].lambda && slp (ob))
            for (int y : std::vector<int> (o[c].evs))
              if (e[y].type == Event::PRESENTATION && e[y].state != Event::SLEEPING) { MAction b; b.ev = y; b.tr = a.tr; eval_action (b); }
          if (o[c].kind == CTX && occ (c)) trig (c);
        }
    }
  return n;
}
int Model::action (int ev, Event::Transition tr, const std::string &v)
{ MAction a; a.ev = ev; a.tr = tr; a.value = v; budget = 0; return eval_action (a); }

void Model::start ()
{
  playing = true; budget = 0;
  action (o[root].lambda, Event::START);
  trans (o[settings].lambda, Event::START);
}

void Model::obj_tick (int ob, Time diff)
{
  if (!occ (ob)) return;
  o[ob].time += diff;
  std::vector<MAction> due; std::list<std::pair<MAction, Time>> rest;
  for (auto &d : o[ob].delayed) { if (o[ob].time >= d.second) due.push_back (d.first); else rest.push_back (d); }
  o[ob].delayed = rest;
  for (size_t i = 0; i < due.size (); i++)
    {
      eval_action (due[i]);
      if (!occ (ob))
        {
          // paused half-way: what was due stays due
          if (!slp (ob)) for (size_t k = due.size (); k-- > i + 1; ) o[ob].delayed.push_front ({ due[k], o[ob].time });
          return;
        }
    }
}
void Model::ctx_tick (int ob, Time diff)
{
  obj_tick (ob, diff);
  unsigned n = awake (ob);
  bool end = n == 0;
  if (o[ob].parent < 0 && n == 1 && !slp (settings)) end = true;
  if (end) { MAction a; a.ev = o[ob].lambda; a.tr = Event::STOP; eval_action (a); }
}
void Model::media_tick (int ob, Time diff)
{
  obj_tick (ob, diff);
  if (!o[ob].player) return;
  if (o[ob].pdur != NONE && o[ob].time != NONE && o[ob].time > o[ob].pdur)
    { MAction a; a.ev = o[ob].lambda; a.tr = Event::STOP; eval_action (a); }
}
void Model::update_focus (const std::string &idx)
{
  std::string next = idx;
  if (next == "")
    for (auto &m : o)
      if ((m.kind == MEDIA || m.kind == SETTINGS) && e[m.lambda].state == Event::OCCURRING)
        {
          auto it = m.props.find ("focusIndex");
          if (it != m.props.end () && it->second != "" && (next == "" || it->second < next)) next = it->second;
        }
  for (int x : o[settings].evs)
    if (e[x].type == Event::ATTRIBUTION && e[x].id == "service.currentFocus")
      {
        MAction a; a.ev = x;
        if (e[x].state != Event::SLEEPING) { a.tr = Event::STOP; eval_action (a); }
        a.tr = Event::START; a.value = next; eval_action (a);
        return;
      }
}
bool Model::eos ()
{
  if (slp (root)) { playing = false; return true; }
  return false;
}
bool Model::tick (Time diff)
{
  if (!playing || eos ()) return false;
  std::vector<int> buf;
  for (int i : objorder) if (occ (i)) buf.push_back (i);
  for (int i : buf)
    {
      budget = 0;
      switch (o[i].kind)
        {
        case CTX: ctx_tick (i, diff); break;
        case SWITCH: obj_tick (i, diff); break;
        case MEDIA: media_tick (i, diff); break;
        case SETTINGS:
          if (hasNext) { hasNext = false; update_focus (nextFocus); }
          media_tick (i, diff); break;
        }
      if (overflow) break;
    }
  return true;
}
bool Model::key (const std::string &k, bool press)
{
  if (!playing || eos ()) return false;
  std::vector<int> buf;
  for (int i : objorder) if (!slp (i)) buf.push_back (i);
  for (int i : buf)
    {
      budget = 0;
      if (o[i].kind != MEDIA && o[i].kind != SETTINGS) continue;
      if (slp (i) || !o[i].player) continue;
      bool foc = o[i].pfocus != "" && o[i].pfocus == currentFocus;
      if (press && foc)
        {
          const char *n = k == "CURSOR_UP" ? "moveUp" : k == "CURSOR_DOWN" ? "moveDown" : k == "CURSOR_LEFT" ? "moveLeft" : k == "CURSOR_RIGHT" ? "moveRight" : nullptr;
          if (n && o[i].props.count (n) && o[i].props[n] != "") { hasNext = true; nextFocus = o[i].props[n]; }
        }
      std::vector<int> sel;
      for (int x : o[i].evs)
        if (e[x].type == Event::SELECTION)
          {
            std::string want = e[x].key; if (!want.empty () && want[0] == '$') want = "";
            if (want == "" ? (k == "ENTER" && foc) : want == k) sel.push_back (x);
          }
      for (int x : sel) { MAction a; a.ev = x; a.tr = press ? Event::START : Event::STOP; eval_action (a); }
    }
  return true;
}
std::string Model::canon () const
{
  std::string s = playing ? "P" : "S";
  for (auto &m : o)
    {
      s += "|" + m.id + (m.time == NONE ? std::string ("-") : std::to_string (m.time));
      for (int x : m.evs) s += "SOP"[e[x].state == Event::SLEEPING ? 0 : e[x].state == Event::OCCURRING ? 1 : 2];
      for (auto &kv : m.props) s += ";" + kv.first + "=" + kv.second;
      for (auto &d : m.delayed) s += vf::fmt ("!%d,%d@%llu", d.first.ev, (int) d.first.tr, (unsigned long long) d.second);
    }
  return s + "#" + currentFocus + (hasNext ? "?" + nextFocus : "");
}
}
