// One real player drawing on a small image surface.
#ifndef PLAY_H
#define PLAY_H
#include "aux-ginga.h"
#include "Formatter.h"
#include "Document.h"
#include "Context.h"
#include "Media.h"
#include "MediaSettings.h"
#include "Event.h"
#include "Player.h"
#include "vf.h"
#include <map>
#include <memory>
#include <algorithm>
#include <cmath>
#include <cstring>
using namespace ginga; using vf::Rep; using vf::Spec; using vf::fmt; using vf::Dec; typedef std::string S; typedef std::vector<S> V;

struct Px { int r, g, b; };
struct Pic { int w = 0, h = 0; std::vector<uint32_t> p;
  Px at (int x, int y) const { uint32_t v = p[y * w + x]; return { (int) (v >> 16 & 255), (int) (v >> 8 & 255), (int) (v & 255) }; }
  bool operator== (const Pic &o) const { return w == o.w && h == o.h && p == o.p; } };

struct Play
{
  Formatter *f = nullptr; Time t = 0; uint64_t fr = 0; int w, h; S file, err; bool started = false;
  static S dir () { static S d; if (d == "") { d = vf::scratch (); char b[PATH_MAX]; if (realpath (d.c_str (), b)) d = b; } return d; }
  Play (const S &text, int w_, int h_, const S &bg = "") : w (w_), h (h_)
  {
    static unsigned n = 0; file = dir () + fmt ("/p%u.ncl", n++ % 4); vf::write_file (file, text);
    GingaOptions o; o.width = w; o.height = h; o.debug = o.webservices = o.opengl = o.experimental = false; o.background = bg;
    f = new Formatter (&o); started = f->start (file, &err); if (started) tick (0);   // the ports are started by the first tick
  }
  ~Play () { delete f; }
  Document *doc () { return f->getDocument (); }
  bool tick (double s) { Time d = (Time) (s * GINGA_SECOND); t += d; return f->sendTick (t, d, fr++); }
  void resize (int a, int b) { w = a; h = b; f->resize (w, h); }
  Event *ev (const S &full)
  {
    if (!doc ()) return nullptr;
    for (auto o : *doc ()->getObjects ()) for (auto e : *o->getEvents ()) if (e->getFullId () == full) return e;
    return nullptr;
  }
  int act (const S &full, Event::Transition tr, const S &value = "", const S &dur = "")
  {
    Event *e = ev (full); if (!e) return -1;
    Action a; a.event = e; a.transition = tr; a.predicate = nullptr; a.value = value; a.duration = dur;
    return doc ()->evalAction (a);
  }
  Pic draw ()
  {
    Pic q; q.w = w; q.h = h; cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_RGB24, w, h); cairo_t *cr = cairo_create (s);
    cairo_set_source_rgb (cr, 1, 0, 1); cairo_paint (cr);          // what was there before must not matter
    f->redraw (cr); cairo_destroy (cr); cairo_surface_flush (s);
    int st = cairo_image_surface_get_stride (s) / 4; uint32_t *d = (uint32_t *) cairo_image_surface_get_data (s);
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) q.p.push_back (d[y * st + x] & 0xffffff);
    cairo_surface_destroy (s); return q;
  }
  S states ()
  {
    std::vector<S> v; if (!doc ()) return "stopped";
    for (auto o : *doc ()->getObjects ()) { S s = o->getId () + (o->isSleeping () ? "-" : o->isPaused () ? "=" : "+") + fmt ("%llu", (unsigned long long) o->getTime ()); std::vector<S> u; for (auto e : *o->getEvents ()) u.push_back (fmt (" %d%s=%d", (int) e->getType (), e->getId ().c_str (), (int) e->getState ()) + (e->getType () == Event::ATTRIBUTION ? o->getProperty (e->getId ()) : S ())); std::sort (u.begin (), u.end ()); for (auto &x : u) s += x; v.push_back (s); }
    std::sort (v.begin (), v.end ()); S r; for (auto &x : v) r += x + ";"; return r;
  }
};
// reference arithmetic
static double num (const S &s, bool *pc = nullptr) { char *e; double d = strtod (s.c_str (), &e); if (pc) *pc = *e == '%'; return d; }
static long rnd (double d) { return d < 0 ? -(long) floor (-d + 0.5) : (long) floor (d + 0.5); }
static long res (const S &s, long base) { bool p; double d = num (s, &p); if (p) d = d * base / 100.; if (d < 0) d = 0; if (d > 2147483647.) d = 2147483647.; return rnd (d); }
struct R4 { long x, y, w, h; };
static S str (const R4 &r) { return fmt ("%ldx%ld at (%ld,%ld)", r.w, r.h, r.x, r.y); }
// the picture of one opaque rectangle of a colour over black
static S only (const Pic &p, const R4 &r, uint32_t col)
{
  long x0 = 1 << 30, y0 = x0, x1 = -1, y1 = -1; bool other = false;
  for (int y = 0; y < p.h; y++) for (int x = 0; x < p.w; x++)
    {
      uint32_t v = p.p[y * p.w + x]; if (v == col) { x0 = std::min<long> (x0, x); y0 = std::min<long> (y0, y); x1 = std::max<long> (x1, x); y1 = std::max<long> (y1, y); } else if (v) other = true;
    }
  bool bad = other;
  for (int y = 0; y < p.h && !bad; y++) for (int x = 0; x < p.w && !bad; x++)
    { bool in = x >= r.x && x < r.x + r.w && y >= r.y && y < r.y + r.h; if ((p.p[y * p.w + x] == col) != in) bad = true; }
  if (!bad) return "";
  return "expected " + str (r) + fmt (" on a %dx%d screen, drawn is ", p.w, p.h) + (other ? S ("something of another colour") : x1 < 0 ? S ("nothing") : str ({ x0, y0, x1 - x0 + 1, y1 - y0 + 1 }));
}
static S prop (const S &n, const S &v) { return "<property name='" + n + "' value='" + v + "'/>"; }
static S optprop (const S &n, const S &v) { return v == "-" ? S () : prop (n, v); }
static S medium (const S &id, const S &props, const S &attrs = "") { return "<media id='" + id + "'" + attrs + ">" + props + "</media>"; }
static S doc (const S &body, const S &head = "") { return "<ncl><head>" + head + "</head><body>" + body + "</body></ncl>"; }
#endif
