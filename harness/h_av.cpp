// C30: audio, video and generated-sound media.  The players and their GStreamer elements are real; state changes,
// seeks, queries and frames, which would need threads and devices, are played by the harness.
#include "play.h"
#include "Parser.h"
#include <gst/gst.h>
#include <gst/app/gstappsink.h>
#include <gst/video/video.h>
#include <deque>

// ------------------------------------------------------------ the machinery
struct El { GstElement *e; GstState st; };
static std::vector<El> els; static S bad; static bool ready_ = true, failing = false; static gint64 pos_ = 0;
struct Seek { double rate; gint64 to; bool operator== (const Seek &o) const { return rate == o.rate && to == o.to; } };
static std::vector<Seek> seeks; static std::vector<GstEvent *> evs; static std::deque<GstSample *> frames;
static void gone (gpointer, GObject *o)
{
  for (size_t k = 0; k < els.size (); k++) if ((GObject *) els[k].e == o) { if (els[k].st != GST_STATE_NULL) bad = "a pipeline was destroyed while " + S (gst_element_state_get_name (els[k].st)); els.erase (els.begin () + k); return; }
}
static El *el (GstElement *e)
{
  for (auto &x : els) if (x.e == e) return &x;
  els.push_back ({ e, GST_STATE_NULL }); g_object_weak_ref (G_OBJECT (e), gone, nullptr); return &els.back ();
}
extern "C" {
GstStateChangeReturn __wrap_gst_element_set_state (GstElement *e, GstState s)
{
  El *x = el (e); if (failing && s == GST_STATE_PLAYING) return GST_STATE_CHANGE_FAILURE;
  if (x->st == GST_STATE_NULL && s != GST_STATE_NULL) pos_ = 0;
  x->st = s; if (GstBus *b = gst_element_get_bus (e)) { gst_bus_set_flushing (b, s == GST_STATE_NULL); gst_object_unref (b); }
  return GST_STATE_CHANGE_SUCCESS;
}
GstStateChangeReturn __wrap_gst_element_get_state (GstElement *e, GstState *c, GstState *p, GstClockTime)
{
  El *x = el (e); bool wait = !ready_ && x->st > GST_STATE_READY;
  if (c) *c = wait ? GST_STATE_READY : x->st; if (p) *p = wait ? x->st : GST_STATE_VOID_PENDING; return wait ? GST_STATE_CHANGE_ASYNC : GST_STATE_CHANGE_SUCCESS;
}
gboolean __wrap_gst_element_query_position (GstElement *, GstFormat, gint64 *c) { *c = pos_; return TRUE; }
gboolean __wrap_gst_element_query_duration (GstElement *, GstFormat, gint64 *c) { *c = 100 * (gint64) GST_SECOND; return TRUE; }
gboolean __wrap_gst_element_seek (GstElement *, gdouble r, GstFormat, GstSeekFlags, GstSeekType, gint64 to, GstSeekType, gint64) { seeks.push_back ({ r, to }); pos_ = to; return TRUE; }
gboolean __wrap_gst_element_send_event (GstElement *, GstEvent *e)
{
  double r; GstFormat f; GstSeekFlags fl; GstSeekType a, b; gint64 s, t; gst_event_parse_seek (e, &r, &f, &fl, &a, &s, &b, &t); seeks.push_back ({ r, r > 0 ? s : t });
  evs.push_back (e); return TRUE;   // ours now
}
GstSample *__wrap_gst_app_sink_try_pull_sample (GstAppSink *, GstClockTime) { if (frames.empty ()) return nullptr; GstSample *s = frames.front (); frames.pop_front (); return s; }
GstSample *__wrap_gst_app_sink_pull_sample (GstAppSink *k) { return __wrap_gst_app_sink_try_pull_sample (k, 0); }
}
static void clear ()
{
  for (auto e : evs) { if (GST_MINI_OBJECT_REFCOUNT_VALUE (e) != 1) bad = "an event given away was released again"; else gst_event_unref (e); } evs.clear (); seeks.clear ();
}
static void reset () { clear (); bad = ""; ready_ = true; failing = false; pos_ = 0; while (!frames.empty ()) { gst_sample_unref (frames.front ()); frames.pop_front (); } }
static void post (int what)   // 0 end of content, 1 ready
{
  for (auto &x : std::vector<El> (els)) if (x.st != GST_STATE_NULL) if (GstBus *b = gst_element_get_bus (x.e))
    { gst_bus_post (b, what ? gst_message_new_async_done (GST_OBJECT (x.e), GST_CLOCK_TIME_NONE) : gst_message_new_eos (GST_OBJECT (x.e))); gst_object_unref (b); }
  while (g_main_context_iteration (nullptr, FALSE)) {}
}
static void frame (uint32_t col, int w = 8, int h = 6)
{
  GstBuffer *b = gst_buffer_new_allocate (nullptr, w * h * 4, nullptr); GstMapInfo m; gst_buffer_map (b, &m, GST_MAP_WRITE); for (int k = 0; k < w * h; k++) ((uint32_t *) m.data)[k] = col | 0xff000000u; gst_buffer_unmap (b, &m);
  GstCaps *c = gst_caps_new_simple ("video/x-raw", "format", G_TYPE_STRING, "BGRA", "width", G_TYPE_INT, w, "height", G_TYPE_INT, h, "framerate", GST_TYPE_FRACTION, 25, 1, nullptr);
  frames.push_back (gst_sample_new (b, c, nullptr, nullptr)); gst_buffer_unref (b); gst_caps_unref (c);
}
// the sound source of a generator's pipeline
static GstElement *source (GstElement *p)
{
  GstElement *r = nullptr; GstIterator *it = gst_bin_iterate_sources (GST_BIN (p)); GValue v = G_VALUE_INIT;
  while (gst_iterator_next (it, &v) == GST_ITERATOR_OK) { GstElement *e = GST_ELEMENT (g_value_get_object (&v)); if (g_object_class_find_property (G_OBJECT_GET_CLASS (e), "freq")) r = e; g_value_reset (&v); }
  g_value_unset (&v); gst_iterator_free (it); return r;
}
struct Sound { S src; double vol = 1, freq = 440; bool mute = false; S wave = "sine"; };
static S look (GstElement *e, bool gen, const Sound &w)
{
  if (!gen)
    {
      if (!g_object_class_find_property (G_OBJECT_GET_CLASS (e), "uri")) return "the pipeline plays no content";
      gchar *u = nullptr; double v; gboolean m; g_object_get (e, "uri", &u, "volume", &v, "mute", &m, nullptr); S us = u ? u : ""; g_free (u);
      if (us != w.src) return "the pipeline plays '" + us + "' instead of '" + w.src + "'"; if (fabs (v - w.vol) > 1e-6) return fmt ("the volume is %g instead of %g", v, w.vol); if ((bool) m != w.mute) return fmt ("mute is %d instead of %d", m, w.mute);
      return "";
    }
  GstElement *s = source (e); if (!s) return "the pipeline generates no sound"; double f, v; int k; g_object_get (s, "freq", &f, "volume", &v, "wave", &k, nullptr);
  GParamSpec *ps = g_object_class_find_property (G_OBJECT_GET_CLASS (s), "wave"); S nick = g_enum_get_value (G_PARAM_SPEC_ENUM (ps)->enum_class, k)->value_nick;
  if (fabs (f - w.freq) > 1e-6) return fmt ("the frequency is %g instead of %g", f, w.freq); if (fabs (v - w.vol) > 1e-6) return fmt ("the volume is %g instead of %g", v, w.vol); if (nick != w.wave) return "the wave is '" + nick + "' instead of '" + w.wave + "'"; return "";
}
// ------------------------------------------------------------ the model
static const V KIND = { "video", "audio", "siggen" };
static S attrs (int kind) { return kind == 2 ? S (" type='application/x-ginga-siggen'") : kind == 0 ? S (" src='a.mp4'") : S (" type='audio/mp3' src='a.snd'"); }
static S src_uri (int kind) { return kind == 2 ? S () : "file://" + Play::dir () + (kind ? "/a.snd" : "/a.mp4"); }
struct Av
{
  int kind; double dur = 1e9; bool freeze = false; S decl_speed; Sound d, now; Event::State st = Event::SLEEPING; double e = 0, off = 0; bool eos = false; double speed = 1, pos = 0;
  std::vector<std::pair<S, S>> wait; std::vector<Seek> sk; bool ready = true;
  void start (bool at_once) { if (st == Event::PAUSED) { st = Event::OCCURRING; e = 0; return; } if (st == Event::OCCURRING) return; st = Event::OCCURRING; e = 0; eos = false; now = d; speed = 1; pos = 0; wait.clear (); if (decl_speed != "") wait.push_back ({ "speed", decl_speed }); ready = at_once; }
  void stop () { st = Event::SLEEPING; wait.clear (); }
  double when (const S &v) { double x = 0; size_t c = v.find (':'); if (c != S::npos) { x = atoi (v.c_str ()) * 3600 + atoi (v.c_str () + c + 1) * 60 + num (v.substr (v.rfind (':') + 1)); return x; } return num (v); }
  void seek (const S &n, const S &v)
  {
    if (st == Event::SLEEPING || kind == 2) return; if (!ready) { wait.push_back ({ n, v }); return; }
    if (n == "speed") { speed = num (v); sk.push_back ({ speed, (gint64) llround (pos * 1e9) }); return; }
    bool rel = v[0] == '+' || v[0] == '-'; double x = when (rel ? v.substr (1) : v); pos = v[0] == '+' ? pos + x : v[0] == '-' ? std::max (0., pos - x) : x; sk.push_back ({ speed, (gint64) llround (pos * 1e9) });
  }
  void async_done () { if (st == Event::SLEEPING || kind == 2) return; ready = true; auto w = wait; wait.clear (); for (auto &x : w) seek (x.first, x.second); }
  void tick (double s) { if (st != Event::OCCURRING) return; e += s; if ((eos && kind != 2) || e > dur) stop (); }
};
static double level (const S &v) { bool pc; double d = num (v, &pc); return pc ? d / 100 : d; }
static bool judge (Play &p, Av &m, const S &when, Rep &rep)
{
  rep.steps++; auto fail = [&] (const S &k, const S &t) { rep.fail (k, when + ": " + t); return false; };
  Event *ev = p.ev ("m@lambda"); if (!ev) return fail ("harness", "no m@lambda"); Event::State st = ev->getState ();
  if (st != m.st) return fail ("state", fmt ("the media's state is %d instead of %d", (int) st, (int) m.st));
  if (bad != "") return fail ("objects", bad);
  std::vector<El> on; for (auto &x : els) if (x.st != GST_STATE_NULL) on.push_back (x);
  if (m.st == Event::SLEEPING) { if (!on.empty ()) return fail ("pipeline", S ("the media sleeps but its pipeline is ") + gst_element_state_get_name (on[0].st)); }
  else
    {
      if (on.size () != 1) return fail ("pipeline", fmt ("%zu pipelines are active instead of one", on.size ()));
      GstState w = m.st == Event::OCCURRING ? GST_STATE_PLAYING : GST_STATE_PAUSED; if (on[0].st != w) return fail ("pipeline", S ("the pipeline is ") + gst_element_state_get_name (on[0].st) + " instead of " + gst_element_state_get_name (w));
      S l = look (on[0].e, m.kind == 2, m.now); if (l != "") return fail ("sound", l);
    }
  for (auto e : evs) if (GST_MINI_OBJECT_REFCOUNT_VALUE (e) != 1) return fail ("objects", "an event given away was released again");
  if (!(seeks == m.sk)) { S a, b; for (auto &x : seeks) a += fmt (" %g@%g", x.rate, x.to / 1e9); for (auto &x : m.sk) b += fmt (" %g@%g", x.rate, x.to / 1e9); return fail ("position", "the content was moved (speed@seconds) to [" + a + " ] instead of [" + b + " ]"); }
  clear (); m.sk.clear (); return true;
}
static const V OPS = { "start", "stop", "pause", "resume", "tick .5", "tick 1.5", "end", "ready", "volume 30%", "volume .75", "mute true", "abort", "time 3s", "speed 2", "freq 880", "wave ticks", "uri", "time +2s", "time -1.25s", "volume", "mute false", "fails", "draw" };
static bool perform (Play &p, Av &m, const S &o, bool at_once, Rep &rep)
{
  size_t k = o.find (' '); S n = o.substr (0, k), v = k == S::npos ? "" : o.substr (k + 1); Media *md = cast (Media *, p.doc ()->getObjectById ("m"));
  if (n == "start") { if (m.st == Event::SLEEPING) ready_ = at_once; bool can = m.st != Event::OCCURRING; (void) can; p.act ("m@lambda", Event::START); m.start (at_once); }
  else if (n == "stop" || n == "abort") { p.act ("m@lambda", n == "stop" ? Event::STOP : Event::ABORT); if (m.st != Event::SLEEPING) m.stop (); }
  else if (n == "pause") { p.act ("m@lambda", Event::PAUSE); if (m.st == Event::OCCURRING) m.st = Event::PAUSED; }
  else if (n == "resume") { p.act ("m@lambda", Event::RESUME); if (m.st == Event::PAUSED) m.st = Event::OCCURRING; }
  else if (n == "tick") { p.tick (num (v)); m.tick (num (v)); }
  else if (n == "end") { if (m.st != Event::SLEEPING && !m.freeze) m.eos = true; post (0); }
  else if (n == "ready") { ready_ = true; m.async_done (); post (1); }
  else if (n == "draw") { S a = p.states (); p.draw (); if (p.states () != a) { rep.fail ("draw", "drawing changed a state"); return false; } }
  else if (n == "fails")   // a start whose pipeline refuses to play: the media ends at the next tick
    {
      if (m.st != Event::SLEEPING) return true; failing = true; p.act ("m@lambda", Event::START); failing = false; Event *ev = p.ev ("m@lambda");
      if (ev->getState () != Event::OCCURRING) { rep.fail ("state", "the media did not start"); return false; } p.tick (.25); m.stop ();
    }
  else if (n == "time" || n == "speed") { md->setProperty (n, v); m.seek (n, v); if (n == "speed") m.decl_speed = v; else {} }
  else
    {
      if (n == "uri") { v = "file:///x/b"; if (m.kind == 2) return true; }
      md->setProperty (n, v); Sound *t[] = { &m.d, &m.now };
      for (auto s : t) if (n == "uri") s->src = v; else if (n == "volume") s->vol = v == "" ? 1 : level (v); else if (n == "mute") s->mute = v == "true"; else if (n == "freq") s->freq = num (v); else s->wave = v;
    }
  return true;
}
static void c30 (Spec &sp)
{
  bool th = vf::thorough ();
  auto usable = [] (int kind, const S &o) { bool gen = o.compare (0, 4, "freq") == 0 || o.compare (0, 4, "wave") == 0 || o == "fails"; return kind == 2 ? !(o.compare (0, 4, "mute") == 0 || o.compare (0, 4, "time") == 0 || o.compare (0, 5, "speed") == 0 || o == "uri") : !gen; };
  // 1. histories
  for (int kind = 0; kind < 3; kind++)
    {
      auto O = std::make_shared<V> (); for (auto &o : OPS) if (usable (kind, o)) O->push_back (o); auto Q = std::make_shared<V> (V { "start", "stop", "pause", "resume", "tick .5", "tick 1.5", "end", kind == 2 ? "freq 880" : "speed 2", "volume 30%" }); if (kind < 2) Q->push_back ("ready");
      for (int deep = 0; deep < 2; deep++)
        {
          auto A = deep ? Q : O; uint64_t na = A->size (), len = (deep ? 4 : 3) + (th ? 1 : 0), n = vf::ipow (na, len);
          if (kind == 1 && !th && deep) continue;
          auto ops = [=] (uint64_t i) { V r; for (uint64_t k = 0; k < len; k++) { r.push_back ((*A)[i % na]); i /= na; } return r; };
          sp.families.push_back ({ KIND[kind] + (deep ? ": long histories" : ": histories"), n * 8, [=] (uint64_t i, Rep &rep) {
              Dec d (i); int c = d.next (8); bool du = c & 1, fz = c & 2, once = c & 4; if ((kind == 2 && fz) || (kind == 1 && !th && c != 5)) return; V h = ops (d.next (n));
              reset (); ready_ = once; Av m; m.kind = kind; m.dur = du ? 1.7 : 1e9; m.freeze = fz; m.d.src = src_uri (kind);
              S t = doc (medium ("m", (du ? prop ("explicitDur", "1.7s") : S ()) + (fz ? prop ("freeze", "true") : S ()) + (c == 5 ? prop ("volume", "0.5") : S ()), attrs (kind)) + "<media id='o'/><port id='p' component='m'/><port id='q' component='o'/>"); if (c == 5) m.d.vol = .5;
              rep.say (t); S w = "at start"; { Play p (t, 12, 10); if (!p.started) { rep.fail ("harness", p.err); return; } m.start (once); if (!judge (p, m, w, rep)) return;
              for (auto &o : h) { rep.say (o); w = "after " + o; if (!perform (p, m, o, once, rep) || !judge (p, m, w, rep)) return; } rep.nontrivial = true; rep.state (fmt ("%d%d%g", kind, (int) m.st, m.now.vol) + (m.now.src == "file:///x/b" ? "b" : "")); if (i & 16) { p.f->stop (); for (auto &x : els) if (x.st != GST_STATE_NULL) { rep.fail ("pipeline", "a pipeline is active though the presentation was stopped"); return; } } }
              if (!els.empty () || bad != "") rep.fail ("objects", bad != "" ? bad : "a pipeline outlives the presentation"); },
            [=] (uint64_t i) { Dec d (i); int c = d.next (8); S s = fmt ("%s, variant %d:", KIND[kind].c_str (), c); for (auto &o : ops (d.next (n))) s += " " + o + ";"; return s; } });
        }
    }
  // 2. values x ways of setting them
  {
    struct PV { S n, v; int kind; }; auto X = std::make_shared<std::vector<PV>> ();
    for (S v : { "0.5", "30%", "0", "100%", "1", "", "12.5%", "0.01" }) for (S n : { "volume", "soundLevel" }) for (int k = 0; k < 3; k++) X->push_back ({ n, v, k });
    for (S v : { "true", "false", "" }) for (int k = 0; k < 2; k++) X->push_back ({ "mute", v, k });
    for (S v : { "440", "1", "1000", "20000", "12.5", "" }) X->push_back ({ "freq", v, 2 });
    for (S v : { "sine", "square", "saw", "triangle", "silence", "white-noise", "pink-noise", "sine-table", "ticks", "gaussian-noise", "red-noise", "blue-noise", "violet-noise", "" }) X->push_back ({ "wave", v, 2 });
    for (S n : { "balance", "bass", "treble", "balanceLevel", "bassLevel", "trebleLevel" }) for (S v : { "0.5", "10%", "" }) for (int k = 0; k < 2; k++) X->push_back ({ n, v, k });
    static const V HOW = { "declared", "before start", "while playing", "while paused", "then restarted", "twice" };
    uint64_t nx = X->size ();
    sp.families.push_back ({ "property values x ways of setting them", nx * 6 * nx, [=] (uint64_t i, Rep &rep) {
        Dec d (i); auto x = (*X)[d.next (nx)]; int how = d.next (6); auto y = (*X)[d.next (nx)]; if (y.kind != x.kind) return; reset (); Av m; m.kind = x.kind; m.d.src = src_uri (m.kind);
        S cx = x.n == "soundLevel" ? "volume" : x.n, cy = y.n == "soundLevel" ? "volume" : y.n; if (cx == cy) return;
        auto put = [] (Sound &s, const S &n, const S &v) { if (n == "volume") s.vol = v == "" ? 1 : level (v); else if (n == "mute") s.mute = v == "true"; else if (n == "freq") s.freq = v == "" ? 440 : num (v); else if (n == "wave") s.wave = v == "" ? "sine" : v; };
        S t = doc (medium ("m", (y.v == "" ? S () : prop (y.n, y.v)) + (how == 0 && x.v != "" ? prop (x.n, x.v) : how == 5 ? prop (x.n, x.n == "wave" ? "saw" : x.n == "mute" ? "true" : "0.3") : S ()), attrs (x.kind)) + "<media id='o'/><port id='q' component='o'/>" + (how == 1 ? S () : S ("<port id='p' component='m'/>")));
        rep.say (t); rep.nontrivial = true; Play p (t, 12, 10); if (!p.started) { rep.fail ("harness", p.err); return; } Media *md = cast (Media *, p.doc ()->getObjectById ("m")); put (m.d, cy, y.v);
        if (how == 0) put (m.d, cx, x.v); if (how == 1) { md->setProperty (x.n, x.v); put (m.d, cx, x.v); p.act ("m@lambda", Event::START); }
        m.start (true); if (how < 2) { judge (p, m, HOW[how], rep); return; }
        if (how == 3) { p.act ("m@lambda", Event::PAUSE); m.st = Event::PAUSED; }
        if (how == 5 && cx != "volume" && cx != "mute" && cx != "freq" && cx != "wave") {} md->setProperty (x.n, x.v); put (m.d, cx, x.v); put (m.now, cx, x.v); m.now = m.d; if (!judge (p, m, HOW[how], rep)) return;
        if (how == 3) { p.act ("m@lambda", Event::RESUME); m.st = Event::OCCURRING; }
        if (how == 4) { p.act ("m@lambda", Event::STOP); m.stop (); if (!judge (p, m, "stopped", rep)) return; p.act ("m@lambda", Event::START); m.start (true); } judge (p, m, HOW[how], rep); rep.state (x.n + x.v); },
      [=] (uint64_t i) { Dec d (i); auto x = (*X)[d.next (nx)]; int how = d.next (6); auto y = (*X)[d.next (nx)]; return KIND[x.kind] + " " + x.n + "='" + x.v + "' " + HOW[how] + ", with " + y.n + "='" + y.v + "'"; } });
  }
  // 3. positions: start at an anchor, time and speed, ready at once or later
  {
    static const V B = { "0s", "1s", "1.5s", "2.25s", "00:00:03" }, E = { "-", "4s", "4.75s" }, AF = { "", "speed 2", "time 3s", "time +2s", "time -1.25s", "time 00:00:07", "speed 0.5", "speed 3, time 2s", "time 5.5s, speed 2", "time 2s, time +0.5s, time +1s", "speed 2, speed 4" };
    sp.families.push_back ({ "starts at an anchor, then positions and speeds", 5 * 3 * 11 * 2 * 2, [=] (uint64_t i, Rep &rep) {
        Dec d (i); S b = B[d.next (5)], e = E[d.next (3)], af = AF[d.next (11)]; bool once = d.next (2); int kind = d.next (2); reset (); Av m; m.kind = kind; m.d.src = src_uri (kind); ready_ = once;
        S t = doc (medium ("m", "<area id='x' begin='" + b + "'" + (e == "-" ? S () : " end='" + e + "'") + "/>", attrs (kind)) + "<media id='o'/><port id='q' component='o'/><port id='p' component='m' interface='x'/>"); rep.say (t); rep.nontrivial = true;
        Play p (t, 12, 10); if (!p.started) { rep.fail ("harness", p.err); return; } m.start (once); m.seek ("time", b); if (e != "-") m.dur = m.when (e) - m.when (b); if (!judge (p, m, "started at the anchor", rep)) return;
        size_t k = 0; while (k < af.size ()) { size_t c = af.find (", ", k); if (c == S::npos) c = af.size (); S o = af.substr (k, c - k); k = c + 2; rep.say (o); if (!perform (p, m, o, once, rep) || !judge (p, m, "after " + o, rep)) return; }
        m.decl_speed = ""; if (!perform (p, m, "ready", once, rep) || !judge (p, m, "ready", rep)) return; for (double s : { .9, .9, .9, .9, .9, .9 }) { double q = m.e + s; if (fabs (q - m.dur) < 1e-6) return; p.tick (s); m.tick (s); if (!judge (p, m, fmt ("%g s after the start", m.e), rep)) return; } rep.state (b + e); },
      [=] (uint64_t i) { Dec d (i); S b = B[d.next (5)], e = E[d.next (3)], af = AF[d.next (11)]; return "begin " + b + " end " + e + ", then " + af; } });
  }
  // 4. two of them in contexts
  {
    static const V CO = { "pause c", "resume c", "stop c", "start c", "abort c", "pause m", "resume m", "stop m", "start m", "start n", "stop n", "pause body", "resume body", "tick", "end" }; uint64_t len = th ? 5 : 4, n = vf::ipow (15, len);
    sp.families.push_back ({ "two media in nested contexts", n, [=] (uint64_t i, Rep &rep) {
        reset (); S t = doc ("<context id='c'><port id='p' component='m'/><port id='p2' component='n'/><media id='m' src='a.mp4'/><media id='n' type='application/x-ginga-siggen'/></context><media id='o'/><port id='q' component='c'/><port id='r' component='o'/>"); t.replace (t.find ("<body>"), 6, "<body id='body'>"); rep.say (t);
        { Play p (t, 12, 10); if (!p.started) { rep.fail ("harness", p.err); return; } p.tick (0); rep.nontrivial = true; uint64_t k = i; S o = "start";
        for (uint64_t s = 0; s <= len; s++)
          {
            rep.steps++; GstState st[2] = { GST_STATE_NULL, GST_STATE_NULL };
            for (auto &x : els) if (x.st != GST_STATE_NULL) { int g = source (x.e) != nullptr; if (st[g] != GST_STATE_NULL) { rep.fail ("pipeline", "after " + o + ": two pipelines of one media"); return; } st[g] = x.st; }
            for (int g = 0; g < 2; g++) { Event *ev = p.ev (g ? "n@lambda" : "m@lambda"); GstState w = ev->getState () == Event::SLEEPING ? GST_STATE_NULL : ev->getState () == Event::PAUSED ? GST_STATE_PAUSED : GST_STATE_PLAYING; if (st[g] != w) { rep.fail ("pipeline", "after " + o + S (g ? ": n" : ": m") + "'s pipeline is " + gst_element_state_get_name (st[g]) + " instead of " + gst_element_state_get_name (w)); return; } }
            if (bad != "") { rep.fail ("objects", bad); return; } if (s == len) break;
            o = CO[k % 15]; k /= 15; rep.say (o); if (o == "tick") { p.tick (1); if (!p.doc ()) return; continue; } if (o == "end") { post (0); continue; }
            size_t q = o.find (' '); S v = o.substr (0, q), ob = o.substr (q + 1); if (ob == "body") ob = "__root__"; p.act (ob + "@lambda", v == "pause" ? Event::PAUSE : v == "resume" ? Event::RESUME : v == "stop" ? Event::STOP : v == "abort" ? Event::ABORT : Event::START);
          } rep.state (o); }
        if (!els.empty ()) rep.fail ("objects", "a pipeline outlives the presentation"); },
      [=] (uint64_t i) { S s; for (uint64_t k = 0; k < len; k++) { s += CO[i % 15] + "; "; i /= 15; } return s; } });
  }
  // 5. frames
  {
    static const V FO = { "red", "two", "draw", "pause", "resume", "stop", "start", "tick", "toggle" }; uint64_t len = th ? 6 : 5, n = vf::ipow (9, len);
    sp.families.push_back ({ "video frames", n, [=] (uint64_t i, Rep &rep) {
        reset (); S t = doc (medium ("m", prop ("left", "2") + prop ("top", "1") + prop ("width", "8") + prop ("height", "6"), attrs (0)) + "<media id='o'/><port id='p' component='m'/><port id='q' component='o'/>"); rep.say (t);
        Play p (t, 20, 12); if (!p.started) { rep.fail ("harness", p.err); return; } rep.nontrivial = true; uint64_t k = i; int on = 2; bool vis = true; long x = 2; uint32_t cur = 0; std::deque<uint32_t> q; Media *md = cast (Media *, p.doc ()->getObjectById ("m"));
        auto draw = [&] (const S &w) { rep.steps++; if (on && !q.empty ()) { cur = q.front (); q.pop_front (); } R4 r = { x, 1, 8, 6 }; if (!on || !vis || !cur) r = { 0, 0, 0, 0 }; S s = only (p.draw (), r, cur ? cur : 0xff0000); if (s != "") rep.fail ("frame", w + ": " + s); return s == ""; };
        for (uint64_t s = 0; s < len; s++)
          {
            S o = FO[k % 9]; k /= 9; rep.say (o); if (o == "red") { uint32_t c = 0xff0000; if (on) { frame (c); q.push_back (c); } }
            else if (o == "two") { if (on) { frame (0xff); q.push_back (0xff); frame (0xffff00); q.push_back (0xffff00); } } else if (o == "draw") { if (!draw ("drawn")) return; }
            else if (o == "tick") p.tick (.5); else if (o == "toggle") { vis = !vis; md->setProperty ("visible", vis ? "true" : "false"); x = 2 + (x * 2) % 9; md->setProperty ("left", fmt ("%ld", x)); }
            else if (o == "pause") { p.act ("m@lambda", Event::PAUSE); if (on == 2) on = 1; } else if (o == "resume") { p.act ("m@lambda", Event::RESUME); if (on == 1) on = 2; }
            else if (o == "stop") { p.act ("m@lambda", Event::STOP); on = 0; cur = 0; q.clear (); while (!frames.empty ()) { gst_sample_unref (frames.front ()); frames.pop_front (); } } else if (o == "start") { p.act ("m@lambda", Event::START); on = 2; }
          }
        if (!draw ("at the end") || !draw ("once more")) return; rep.state (fmt ("%d%x%d", on, cur, vis)); },
      [=] (uint64_t i) { S s; for (uint64_t k = 0; k < len; k++) { s += FO[i % 9] + "; "; i /= 9; } return s; } });
  }
  sp.rule = "every sequence of requests, ticks, property changes, ends of content and readiness messages to a depth, per kind of media; every property value x way of setting it; every anchor begin/end x positions and speeds; contexts; every sequence of frames, redraws and changes: the state, source, sound properties and position of each pipeline after every step against a model";
  sp.assumptions = { "GStreamer's elements are real but never run: state changes, seeks, position queries and frames are answered by the harness, messages are posted to the real bus", "balance, bass, treble: only that they do no harm; an unknown wave is not judged" };
}
int main (int argc, char **argv)
{
  if (argc < 2) return 2;
  Spec sp; sp.property = argv[1]; sp.level = "model_checking"; if (sp.property != "C30") return 2; c30 (sp);
  return vf::run (sp, argc, argv);
}
