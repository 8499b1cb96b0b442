// C12: all call sequences on the player API up to a depth.
#include "drive.h"
#include "Parser.h"
#include "Media.h"
#include <memory>
#include <algorithm>
#include <cstring>
#include <cairo.h>
using namespace ginga;
using vf::fmt; using vf::Rep; using vf::Spec; using vf::Dec;
typedef std::string S;

static S conns = "<connectorBase>"
  "<causalConnector id='k'><connectorParam name='key'/><simpleCondition role='onSelection' key='$key'/><simpleAction role='set' value='1'/></causalConnector>"
  "<causalConnector id='e'><simpleCondition role='onEnd'/><simpleAction role='start' delay='1s'/></causalConnector>"
  "<causalConnector id='b'><simpleCondition role='onBegin'/><simpleAction role='set' value='2'/></causalConnector></connectorBase>";
// two focusable media, a timed one, a delayed restart, a key link, geometry
static S docA = ncl ("<port id='p1' component='m'/><port id='p2' component='n'/><port id='pc' component='c'/>"
  "<media id='m'><property name='focusIndex' value='2'/><property name='moveRight' value='3'/><property name='left' value='25%'/><property name='width' value='50%'/><property name='height' value='50%'/><property name='background' value='red'/><property name='x' value='0'/></media>"
  "<media id='n'><property name='focusIndex' value='3'/><property name='moveLeft' value='2'/><property name='x' value='0'/></media>"
  "<context id='c'><port id='q' component='t'/><media id='t'><property name='explicitDur' value='1s'/></media>"
  "<link xconnector='e'><bind role='onEnd' component='t'/><bind role='start' component='t'/></link></context>"
  "<link xconnector='k'><bind role='onSelection' component='m'><bindParam name='key' value='RED'/></bind><bind role='set' component='n' interface='x'/></link>"
  "<link xconnector='k'><bind role='onSelection' component='n'/><bind role='set' component='m' interface='x'/></link>", conns);
// ends by itself after a second
static S docB = ncl ("<port id='p1' component='m'/><media id='m'><property name='explicitDur' value='1s'/><property name='focusIndex' value='1'/><property name='top' value='50%'/></media>"
  "<media id='st' type='application/x-ginga-settings'><property name='v' value='7'/></media>"
  "<link xconnector='b'><bind role='onBegin' component='m'/><bind role='set' component='st' interface='v'/></link>", conns);
// sets the focus itself
static S docC = ncl ("<port id='p1' component='m'/><port id='p2' component='n'/><media id='m'><property name='focusIndex' value='2'/></media><media id='n'><property name='focusIndex' value='3'/></media>"
  "<media id='st' type='application/x-ginga-settings'><property name='service.currentFocus' value=''/></media>"
  "<link xconnector='b'><bind role='onBegin' component='n'/><bind role='set' component='st' interface='service.currentFocus'/></link>", conns);

static S check_opts (Drive &d)
{
  const GingaOptions *o = d.fmt ()->getOptions ();
  if (o->width != d.w || o->height != d.h) return fmt ("size reads %dx%d, last set to %dx%d", o->width, o->height, d.w, d.h);
  if (d.fmt ()->getOptionInt ("width") != d.w || d.fmt ()->getOptionInt ("height") != d.h) return "width/height options do not read back";
  return "";
}
static S resize (Drive &d, int w, int h)
{
  d.w = w; d.h = h; d.fmt ()->resize (w, h); return check_opts (d);
}
static S set_int (Drive &d, const S &n, int v)
{
  (n == "width" ? d.w : d.h) = v; d.fmt ()->setOptionInt (n, v); return check_opts (d);
}
static S set_bg (Drive &d, const S &v)
{
  d.bg = v; d.fmt ()->setOptionString ("background", v);
  if (d.fmt ()->getOptionString ("background") != v || d.fmt ()->getOptions ()->background != v) return "background does not read back";
  return check_opts (d);
}
static S set_bool (Drive &d, const S &n, bool v)
{
  d.fmt ()->setOptionBool (n, v);
  if (d.fmt ()->getOptionBool (n) != v) return n + " does not read back";
  const GingaOptions *o = d.fmt ()->getOptions ();
  if ((n == "debug" ? o->debug : o->experimental) != v) return n + " is not in getOptions()";
  return check_opts (d);
}
static S redraw (Drive &d)
{
  S out[2]; uint32_t px = 0;
  for (int k = 0; k < 2; k++)
    {
      cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, 64, 48);
      cairo_t *cr = cairo_create (s);
      cairo_scale (cr, 64.0 / d.w, 48.0 / d.h);
      d.fmt ()->redraw (cr);
      if (cairo_status (cr)) return S ("cairo error: ") + cairo_status_to_string (cairo_status (cr));
      cairo_destroy (cr); cairo_surface_flush (s);
      out[k] = S ((char *) cairo_image_surface_get_data (s), cairo_image_surface_get_stride (s) * 48);
      memcpy (&px, out[k].data () + 40 * cairo_image_surface_get_stride (s) + 5 * 4, 4); // no object of these documents draws here
      cairo_surface_destroy (s);
    }
  if (out[0] != out[1]) return "two redraws in a row differ";
  bool black = out[0].find_first_not_of ('\0') == S::npos;
  if (black != (d.fmt ()->getState () != GINGA_STATE_PLAYING)) return black ? "a playing player draws nothing" : "a stopped player draws something";
  if (!black && (px & 0xffffff) != (d.bg == "" ? 0u : d.bg == "blue" ? 0xffu : 0xff0000u)) return fmt ("the background is drawn as %06x", px & 0xffffff) + ", last set to '" + d.bg + "'";
  return check_opts (d);
}
static S nothing (Drive &d) { return check_opts (d); }

int main (int argc, char **argv)
{
  S prop = argc > 1 ? argv[1] : "";
  bool mem = prop == "C25"; if (prop != "C12" && !mem) { fprintf (stderr, "unknown property\n"); return 2; }
  const bool TH = vf::thorough ();
  Spec sp; sp.property = prop; sp.level = "model_checking";
  std::vector<Drive::Text> texts{ { "a.ncl", docA, true }, { "b.ncl", docB, true }, { "c.ncl", docC, true },
    { "bad.ncl", "<ncl><head/><body><port id='p' component='none'/></body></ncl>", false }, { "bad2.ncl", "<ncl><body>", false }, { "missing.ncl", "", false } };
  struct Fam { S name; std::vector<Op> pre, ops; unsigned depth; int ctor; };
  std::vector<Fam> fams;
  std::vector<Op> opt{ FN ("resize 400x300", [] (Drive &d) { return resize (d, 400, 300); }), FN ("resize 1000x700", [] (Drive &d) { return resize (d, 1000, 700); }),
    FN ("width:=640", [] (Drive &d) { return set_int (d, "width", 640); }), FN ("height:=480", [] (Drive &d) { return set_int (d, "height", 480); }),
    FN ("background:=blue", [] (Drive &d) { return set_bg (d, "blue"); }), FN ("background:=''", [] (Drive &d) { return set_bg (d, ""); }), FN ("background:=red", [] (Drive &d) { return set_bg (d, "red"); }),
    FN ("debug:=true", [] (Drive &d) { return set_bool (d, "debug", true); }), FN ("debug:=false", [] (Drive &d) { return set_bool (d, "debug", false); }),
    FN ("experimental:=true", [] (Drive &d) { return set_bool (d, "experimental", true); }), FN ("redraw", redraw) };
  std::vector<Op> play{ START (0), START (1), START (2), START (3), START (5), FSTOP (), T (0), T (1), K ("RED"), K ("CURSOR_RIGHT"), K ("ENTER"), K ("ENTER", false) };
  { Fam f; f.name = "lifecycle calls"; f.ops = play; f.ops.push_back (START (4)); f.depth = TH ? 6 : 4; f.ctor = 0; fams.push_back (f); }
  { Fam f; f.name = "lifecycle and option calls"; f.ops = opt; for (auto &o : { START (0), START (1), START (5), FSTOP (), T (1) }) f.ops.push_back (o); f.depth = TH ? 5 : 4; f.ctor = 1; fams.push_back (f); }
  { Fam f; f.name = "second presentation after a history in the first"; f.pre = { START (0), T (0) };
    f.ops = { T (1), T (0.4), K ("CURSOR_RIGHT"), K ("ENTER"), K ("RED"), FSTOP (), START (0), START (2), START (1), A ("m@lambda", Event::PAUSE), A ("c@lambda", Event::STOP), A ("n.x", Event::START, "5"), A ("m@lambda", Event::STOP), A ("__root__@lambda", Event::PAUSE) };
    f.ops.erase (std::remove_if (f.ops.begin (), f.ops.end (), [] (const Op &o) { return o.k == Op::ACT && o.s != "m@lambda" && o.s != "__root__@lambda"; }), f.ops.end ());
    f.depth = TH ? 5 : 4; f.ctor = 2; fams.push_back (f); }
  { Fam f; f.name = "another presentation after one that ended by itself"; f.pre = { START (1), T (0), T (1.5), T (0), T (0) };
    f.ops = play; f.ops.push_back (FN ("redraw", redraw)); f.depth = TH ? 5 : 3; f.ctor = 2; fams.push_back (f); }
  { Fam f; f.name = "another presentation after one that ended while keys arrived"; f.pre = { START (0), T (0), A ("__root__@lambda", Event::STOP), K ("RED") };
    f.ops = { START (0), START (1), T (0), T (1.5), K ("CURSOR_RIGHT"), K ("ENTER"), FSTOP (), FN ("resize 400x300", [] (Drive &d) { return resize (d, 400, 300); }) }; f.depth = TH ? 6 : 4; f.ctor = 0; fams.push_back (f); }
  for (auto &f0 : fams)
    {
      auto f = std::make_shared<Fam> (f0); if (mem && f->depth > 2 && !TH) f->depth--; // the memory check goes less deep
      vf::Family v; v.name = f->name; v.n = vf::ipow (f->ops.size (), f->depth);
      v.exec = [f, texts] (uint64_t i, Rep &r) {
        GingaOptions o; o.width = f->ctor == 2 ? 1024 : 800; o.height = f->ctor == 2 ? 768 : 600; o.debug = o.webservices = o.opengl = o.experimental = false; o.background = "";
        Formatter *fm = (Formatter *) Ginga::create (f->ctor == 1 ? nullptr : &o);
        Drive d (fm, texts, r); d.w = o.width; d.h = o.height;
        d.step (FN ("create", nothing));
        for (auto &x : f->pre) if (d.ok ()) d.step (x);
        Dec q (i);
        for (unsigned k = 0; k < f->depth && d.ok (); k++) d.step (f->ops[q.next (f->ops.size ())]);
      };
      v.describe = [f] (uint64_t i) { Dec q (i); S s; for (auto &x : f->pre) s += "(" + show (x) + ") "; for (unsigned k = 0; k < f->depth; k++) s += show (f->ops[q.next (f->ops.size ())]) + "; "; return s; };
      sp.families.push_back (v);
    }
  sp.rule = "every sequence of API calls over the family's alphabet up to its depth, on a new player; after each call the result, the player state, the options and (while playing) every event state, object time, property and focus are compared with the model of a fresh presentation";
  sp.assumptions = { "a fresh presentation is predicted by the reference model, which is bound to the code by the same comparison in C01-C11" };
  return vf::run (sp, argc, argv);
}
