#include "drive.h"
#include "Parser.h"
#include "Player.h"
using namespace ginga;
using model::Model;

std::vector<RealLog> g_tlog;
bool g_tlog_on = false;
extern "C" bool __real__ZN5ginga5Event10transitionENS0_10TransitionE (Event *, Event::Transition);
extern "C" bool __wrap__ZN5ginga5Event10transitionENS0_10TransitionE (Event *e, Event::Transition t)
{
  bool r = __real__ZN5ginga5Event10transitionENS0_10TransitionE (e, t);
  if (r && g_tlog_on) g_tlog.push_back ({ e, t });
  return r;
}

Op T (double s) { Op o; o.k = Op::TICK; o.d = (uint64_t) (s * 1e9 + .5); return o; }
Op K (const std::string &k, bool p) { Op o; o.k = Op::KEY; o.s = k; o.press = p; return o; }
Op A (const std::string &e, Event::Transition t, const std::string &v) { Op o; o.k = Op::ACT; o.s = e; o.t = t; o.v = v; return o; }
Op X (const std::string &e, Event::Transition t) { Op o; o.k = Op::TRANS; o.s = e; o.t = t; return o; }
Op FSTOP () { Op o; o.k = Op::STOP; return o; }
Op RESTART () { Op o; o.k = Op::RESTART; return o; }
Op START (unsigned i) { Op o; o.k = Op::START; o.d = i; return o; }
Op FN (const std::string &w, std::function<std::string (Drive &)> f) { Op o; o.k = Op::FN; o.s = w; o.fn = f; return o; }
std::string show (const Op &o)
{
  switch (o.k)
    {
    case Op::TICK: return vf::fmt ("tick %.3fs", o.d / 1e9);
    case Op::KEY: return (o.press ? "press " : "release ") + o.s;
    case Op::ACT: return std::string ("action ") + model::tname (o.t) + " " + o.s + (o.v == "" ? "" : ":=" + o.v);
    case Op::TRANS: return std::string ("transition ") + model::tname (o.t) + " " + o.s;
    case Op::STOP: return "formatter stop";
    case Op::RESTART: return "formatter start";
    case Op::START: return vf::fmt ("start #%u", (unsigned) o.d);
    case Op::FN: return o.s;
    default: return "nop";
    }
}
std::string ncl (const std::string &body, const std::string &head)
{ return "<ncl>\n<head>" + head + "</head>\n<body>" + body + "</body>\n</ncl>\n"; }

Event *find_event (Document *d, const std::string &full)
{
  for (auto *o : *d->getObjects ()) for (auto *e : *o->getEvents ()) if (e->getFullId () == full) return e;
  return nullptr;
}

void Drive::collect_names (const std::string &s)
{
  for (const char *n : { "left", "top", "width", "height", "focusIndex", "service.currentFocus" }) _names.insert (n);
  for (const char *key : { "name=", "interface=" })
    for (size_t p = 0; (p = s.find (key, p)) != std::string::npos; )
      { p += strlen (key); size_t q = s.find (s[p], p + 1); _names.insert (s.substr (p + 1, q - p - 1)); }
  // what an object is, not what it has
  _names.erase ("type"); _names.erase ("uri");
}

Drive::Drive (const std::string &text, vf::Rep &rep, unsigned flags, bool desc) : _ncl (text), _rep (rep), _flags (flags), _desc (desc)
{
  collect_names (text);
  file = vf::scratch () + "/d.ncl";
  static std::string on_disk;
  if (on_disk != text) { vf::write_file (file, text); on_disk = text; }
  _rep.say (text);
  GingaOptions o; o.width = 800; o.height = 600; o.debug = o.webservices = o.opengl = o.experimental = false; o.background = "";
  _fmt = new Formatter (&o);
  start ();
}
Drive::Drive (Formatter *f, const std::vector<Text> &texts, vf::Rep &rep, unsigned flags, bool desc) : _rep (rep), _flags (flags), _desc (desc)
{
  _fmt = f; _texts = texts;
  for (auto &t : _texts) if (t.text != "") { collect_names (t.text); vf::write_file (vf::scratch () + "/" + t.name, t.text); _rep.say ("--- " + t.name + "\n" + t.text); }
}
Drive::~Drive () { g_tlog_on = false; delete _fmt; delete _m; }

bool Drive::start ()
{
  delete _m; _m = new Model ();
  std::string err;
  static std::string cached; static std::map<std::string, std::map<std::string, std::string>> init;
  if (cached != _ncl + vf::fmt ("%dx%d", w, h))
    {
      init.clear ();
      vf::arena_end ();
      Document *d = Parser::parseFile (file, w, h, &err);
      if (!d) { _rep.fail ("parse", "document rejected: " + err); return false; }
      for (auto *ob : *d->getObjects ())
        for (auto &n : _names)
          { std::string v = ob->getProperty (n); if (v != "") init[ob->getId ()][n] = v; }
      delete d;
      cached = _ncl + vf::fmt ("%dx%d", w, h);
    }
  _m->initial = init;
  vf::arena_begin (_desc);
  g_tlog.clear (); g_tlog_on = true;
  bool r = _fmt->start (file, &err);
  vf::arena_end ();
  g_tlog_on = false;
  if (!r) { _rep.fail ("start", "Formatter::start failed: " + err); return false; }
  _total = _frame = 0;
  _m->init (_fmt->getDocument (), _names);
  _m->start ();
  return compare ("start");
}

bool Drive::compare (const std::string &after)
{
  bool real_playing = _fmt->getState () == GINGA_STATE_PLAYING;
  if (!_m)
    {
      if (real_playing) { _rep.fail ("playing", "after " + after + ": formatter is playing although nothing was started"); return false; }
      if (_fmt->getDocument ()) { _rep.fail ("doc-left", "after " + after + ": the stopped player still has a document"); return false; }
      return true;
    }
  Model &m = *_m;
  if (m.overflow) { _rep.fail ("link-loop", "reaction does not settle after " + after); return false; }
  auto bad = [&] (const std::string &cls, const std::string &what) {
    _rep.fail (cls, vf::fmt ("after op %u (%s): ", _n, after.c_str ()) + what);
    _rep.say ("MISMATCH " + what); return false; };
  if (real_playing != m.playing)
    return bad ("playing", vf::fmt ("formatter is %s, expected %s", real_playing ? "playing" : "stopped", m.playing ? "playing" : "stopped"));
  if (!real_playing)
    {
      g_tlog.clear (); m.log.clear ();
      if (_fmt->getDocument ()) return bad ("doc-left", "the stopped player still has a document");
      return true;
    }
  if (_flags & C_ORDER)
    {
      std::string r, x;
      for (auto &l : g_tlog) r += " " + l.e->getFullId () + ":" + model::tname (l.t);
      for (auto &l : m.log) x += " " + m.e[l.ev].full + ":" + model::tname (l.tr);
      if (r != x) return bad ("order", "transitions happened in the order [" + r + " ], expected [" + x + " ]");
    }
  _rep.steps += g_tlog.size ();
  if (_rep.verbose) { std::string r; for (auto &l : g_tlog) r += " " + l.e->getFullId () + ":" + model::tname (l.t); _rep.say ("  " + after + " ->" + r); }
  g_tlog.clear (); m.log.clear ();
  for (auto &x : m.e)
    if (x.real->getState () != x.state)
      return bad ("state", "event " + x.full + " is " + model::sname (x.real->getState ()) + ", expected " + model::sname (x.state));
  for (auto &x : m.o)
    {
      if (x.real->getTime () != x.time)
        return bad ("time", vf::fmt ("object %s has time %lld, expected %lld", x.id.c_str (), (long long) x.real->getTime (), (long long) x.time));
      for (auto &n : _names)
        {
          std::string r = x.real->getProperty (n); auto it = x.props.find (n);
          std::string e = it == x.props.end () ? "" : it->second;
          if (r != e) return bad ("property", "property " + n + " of " + x.id + " is '" + r + "', expected '" + e + "'");
        }
      if (x.kind == model::MEDIA)
        {
          bool f = dynamic_cast<Media *> (x.real)->isFocused (), ef = m.focused (m.omap[x.real]);
          if (f != ef) return bad ("focus", "media " + x.id + (f ? " has" : " does not have") + " the focus");
        }
    }
  // stated directly, not through the model: nothing lives in a sleeping composition
  for (auto &x : m.o)
    {
      Composition *c = x.real->getParent ();
      if (!c || !dynamic_cast<Context *> (c) || !c->isSleeping ()) continue;
      for (auto *e : *x.real->getEvents ())
        if (e->getType () == Event::PRESENTATION && e->getState () != Event::SLEEPING)
          return bad ("containment", "event " + e->getFullId () + " is awake in sleeping context " + c->getId ());
    }
  _rep.state (m.canon ());
  return true;
}

bool Drive::step (const Op &o)
{
  if (!ok ()) return false;
  _n++; _rep.steps++;
  long r = -1, x = -1;
  bool playing = _fmt->getState () == GINGA_STATE_PLAYING;
  if (o.k == Op::FN)
    {
      std::string w = o.fn (*this);
      if (w != "") { _rep.fail ("api", vf::fmt ("op %u (%s): ", _n, o.s.c_str ()) + w); return false; }
      return compare (o.s);
    }
  if (o.k == Op::START)
    {
      const Text &t = _texts[o.d];
      file = vf::scratch () + "/" + t.name;
      if (playing || !t.good)
        {
          std::string e;
          bool ok = _fmt->start (file, &e);
          if (ok) { _rep.fail ("start", vf::fmt ("op %u (%s) succeeded although ", _n, show (o).c_str ()) + (playing ? "a presentation is playing" : t.name + " is no document")); return false; }
          if (!playing && e == "") { _rep.fail ("errmsg", vf::fmt ("op %u (%s) failed without an error message", _n, show (o).c_str ())); return false; }
          if (!playing) { delete _m; _m = nullptr; }
          return compare (show (o));
        }
      _ncl = t.text; current = o.d;
      if (!start ()) return false;
      _rep.nontrivial = true;
      return true;
    }
  if (!_m)
    {
      std::string e;
      r = o.k == Op::TICK ? _fmt->sendTick (_total += o.d, o.d, _frame++) : o.k == Op::KEY ? _fmt->sendKey (o.s, o.press) : o.k == Op::STOP ? _fmt->stop () : 0;
      if (r) { _rep.fail ("return", vf::fmt ("op %u (%s) was accepted by a stopped player", _n, show (o).c_str ())); return false; }
      return compare (show (o));
    }
  Model &m = *_m;
  g_tlog_on = true;
  switch (o.k)
    {
    case Op::TICK: r = _fmt->sendTick (_total += o.d, o.d, _frame++); x = m.tick (o.d); break;
    case Op::KEY: r = _fmt->sendKey (o.s, o.press); x = m.key (o.s, o.press); break;
    case Op::ACT:
    case Op::TRANS:
      {
        if (!playing) { g_tlog_on = false; return true; }
        int e = m.find (o.s);
        if (e < 0) { _rep.fail ("harness", "no event " + o.s); g_tlog_on = false; return false; }
        Event *ev = m.e[e].real;
        if (o.k == Op::ACT) { r = _fmt->getDocument ()->evalAction (ev, o.t, o.v); x = m.action (e, o.t, o.v); }
        else
          {
            auto pre = ev->getState ();
            r = ev->transition (o.t); x = m.trans (e, o.t);
            auto post = ev->getState ();
            // the event state machine, stated directly
            bool legal = o.t == Event::START ? pre != Event::OCCURRING : o.t == Event::PAUSE ? pre == Event::OCCURRING
                         : o.t == Event::RESUME ? pre == Event::PAUSED : pre != Event::SLEEPING;
            auto next = o.t == Event::START || o.t == Event::RESUME ? Event::OCCURRING : o.t == Event::PAUSE ? Event::PAUSED : Event::SLEEPING;
            if ((r && (!legal || post != next)) || (!r && post != pre))
              _rep.fail ("automaton", vf::fmt ("transition %s of %s from %s %s and left it %s", model::tname (o.t), o.s.c_str (), model::sname (pre), r ? "succeeded" : "failed", model::sname (post)));
          }
        break;
      }
    case Op::STOP: r = _fmt->stop (); x = m.stop (); break;
    case Op::RESTART:
      if (playing) { std::string e; r = _fmt->start (file, &e); x = 0; break; }
      g_tlog_on = false; return start ();
    default: g_tlog_on = false; return true;
    }
  g_tlog_on = false;
  if (!ok ()) return false;
  if (r != x) { _rep.fail ("return", vf::fmt ("op %u (%s) returned %ld, expected %ld", _n, show (o).c_str (), r, x)); return false; }
  if (r > 0) _rep.nontrivial = true;
  return compare (show (o));
}

long Drive::apply (Model &m, const Op &o)
{
  switch (o.k)
    {
    case Op::TICK: return m.tick (o.d);
    case Op::KEY: return m.key (o.s, o.press);
    case Op::ACT: case Op::TRANS:
      {
        if (!m.playing) return 0;
        int e = m.find (o.s); if (e < 0) return 0;
        return o.k == Op::ACT ? m.action (e, o.t, o.v) : m.trans (e, o.t);
      }
    case Op::STOP: return m.stop ();
    default: return 0;
    }
}
