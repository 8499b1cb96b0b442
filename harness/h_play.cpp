// C18 layout, C19 drawing, C20 animation, C28 player kinds and property defaults: all on pixels drawn by the real player.
#include "play.h"

// ------------------------------------------------------------------- C18
struct Axis { S pos, size, opp; };                       // "-": not given
struct Ext { long x, w; };
static Ext axis (const Axis &a, long len)
{
  Ext e; e.w = a.size == "-" ? len : res (a.size, len);
  e.x = a.opp != "-" ? len - e.w - res (a.opp, len) : a.pos != "-" ? res (a.pos, len) : 0;
  return e;
}
static const char *AN[2][3] = { { "left", "width", "right" }, { "top", "height", "bottom" } };
static S props (const Axis &a, int k) { return optprop (AN[k][0], a.pos) + optprop (AN[k][1], a.size) + optprop (AN[k][2], a.opp); }
static S attrs (const Axis &a, int k) { S s; const S *v[] = { &a.pos, &a.size, &a.opp }; for (int i = 0; i < 3; i++) if (*v[i] != "-") s += S (" ") + AN[k][i] + "='" + *v[i] + "'"; return s; }
static S show (const Axis &a, int k) { return attrs (a, k); }
static std::vector<Axis> axes (const V &pos, const V &size, const V &opp)
{
  std::vector<Axis> v; for (auto &s : size) { for (auto &p : pos) v.push_back ({ p, s, "-" }); for (auto &o : opp) v.push_back ({ "-", s, o }); } return v;
}
static const int SZ[][2] = { { 20, 16 }, { 7, 11 }, { 33, 9 }, { 1, 1 } };
struct Seq { std::vector<int> v; };
static std::vector<Seq> seqs (int n, int depth) { std::vector<Seq> r = { {} }; size_t b = 0; for (int d = 0; d < depth; d++) { size_t e = r.size (); for (; b < e; b++) for (int k = 0; k < n; k++) { Seq s = r[b]; s.v.push_back (k); r.push_back (s); } } return r; }

// the media is on screen from the start, paused, or started after the resizes
static void judge_layout (const S &ncl, int screen, const Seq &rs, int when, std::function<R4 (int, int, bool &)> want, Rep &rep)
{
  rep.say (ncl); rep.nontrivial = true;
  Play p (ncl, SZ[screen][0], SZ[screen][1]); if (!p.started) { rep.fail ("harness", p.err); return; }
  auto look = [&] (const S &when_) {
    bool care = true; R4 r = want (p.w, p.h, care); if (!care || p.ev ("m@lambda")->getState () == Event::SLEEPING) return;
    Pic q = p.draw (); S s = only (q, r, 0xff0000); rep.steps++; rep.state (fmt ("%d %d ", p.w, p.h) + str (r));
    rep.say (when_ + ": " + str (r));
    if (s != "") rep.fail ("layout", when_ + ": " + s); };
  if (when == 1) { p.tick (1); p.act ("m@lambda", Event::PAUSE); }
  look ("at start");
  for (int k : rs.v) { p.resize (SZ[k][0], SZ[k][1]); look (fmt ("resized to %dx%d", p.w, p.h)); }
  if (when == 1) { p.act ("m@lambda", Event::RESUME); p.tick (1); look ("resumed"); }
  if (when == 2) { p.act ("m@lambda", Event::START); look ("started now"); p.tick (1); look ("a tick later"); p.act ("m@lambda", Event::STOP); p.act ("m@lambda", Event::START); look ("started again"); }
}
static S body1 (const S &p, int when, const S &at = "") { return medium ("m", p + prop ("background", "red"), at) + "<media id='o'/>" + (when == 2 ? S () : S ("<port id='p' component='m'/>")) + "<port id='q' component='o'/>"; }

static void c18 (Spec &sp)
{
  bool th = vf::thorough ();
  auto A = std::make_shared<std::vector<Axis>> (axes ({ "-", "0", "3", "25%", "12.5%", "150%", "-4", "2.6" }, { "-", "0", "5", "50%", "100%", "250%", "-3", "7.4" }, { "0", "2", "10%", "150%", "-2" }));
  auto few = std::make_shared<std::vector<Axis>> (std::vector<Axis> { { "-", "-", "-" }, { "2", "50%", "-" }, { "-", "6", "10%" }, { "25%", "-", "-" } });
  uint64_t na = A->size ();
  { // 1. each axis with a few values of the other, all resizes
    auto R = std::make_shared<std::vector<Seq>> (seqs (4, th ? 3 : 2)); uint64_t nr = R->size ();
    auto get = [=] (uint64_t i, Axis *x, Axis *y, int *sc, int *when, uint64_t *r) { Dec d (i); bool sw = d.next (2); *x = (*A)[d.next (na)]; *y = (*few)[d.next (4)]; if (sw) std::swap (*x, *y); *when = d.next (3); *sc = d.next (3); *r = d.next (nr); };
    sp.families.push_back ({ "position properties of one axis x states x resizes", 2 * na * 4 * 3 * 3 * nr, [=] (uint64_t i, Rep &rep) {
        Axis x, y; int sc, wh; uint64_t r; get (i, &x, &y, &sc, &wh, &r);
        judge_layout (doc (body1 (props (x, 0) + props (y, 1), wh)), sc, (*R)[r], wh, [&] (int w, int h, bool &) { Ext a = axis (x, w), b = axis (y, h); return R4 { a.x, b.x, a.w, b.w }; }, rep); },
      [=] (uint64_t i) { Axis x, y; int sc, wh; uint64_t r; get (i, &x, &y, &sc, &wh, &r); S s = fmt ("screen %dx%d, %s,", SZ[sc][0], SZ[sc][1], wh == 0 ? "playing" : wh == 1 ? "paused" : "started later") + show (x, 0) + show (y, 1); for (int k : (*R)[r].v) s += fmt (" resize %dx%d", SZ[k][0], SZ[k][1]); return s; } });
  }
  { // 2. both axes
    sp.families.push_back ({ "position properties of both axes, one resize", na * na, [=] (uint64_t i, Rep &rep) {
        Axis x = (*A)[i % na], y = (*A)[i / na];
        judge_layout (doc (body1 (props (x, 0) + props (y, 1), 0)), 0, { { 2 } }, 0, [&] (int w, int h, bool &) { Ext a = axis (x, w), b = axis (y, h); return R4 { a.x, b.x, a.w, b.w }; }, rep); },
      [=] (uint64_t i) { return show ((*A)[i % na], 0) + show ((*A)[i / na], 1); } });
  }
  { // 3. shorthands
    auto P = std::make_shared<V> (V { "0", "3", "25%", "150%", "-4" }), Z = std::make_shared<V> (V { "5", "0", "50%", "100%" });
    uint64_t np = P->size (), nz = Z->size (); static const char *SEP[] = { ",", " , ", ", " };
    auto get = [=] (uint64_t i, S *pr, Axis *x, Axis *y, int *wh) {
      Dec d (i); int form = d.next (4); x->pos = (*P)[d.next (np)]; x->size = (*Z)[d.next (nz)]; y->pos = (*P)[d.next (np)]; y->size = (*Z)[d.next (nz)]; x->opp = y->opp = "-"; S c = SEP[d.next (3)]; *wh = d.next (3);
      if (form == 0) *pr = prop ("bounds", x->pos + c + y->pos + c + x->size + c + y->size);
      else if (form == 1) { *pr = prop ("location", x->pos + c + y->pos); x->size = y->size = "-"; }
      else if (form == 2) { *pr = prop ("size", x->size + c + y->size); x->pos = y->pos = "-"; }
      else *pr = prop ("location", x->pos + c + y->pos) + prop ("size", x->size + c + y->size); };
    sp.families.push_back ({ "bounds, location and size", 4 * np * nz * np * nz * 3 * 3, [=] (uint64_t i, Rep &rep) {
        S pr; Axis x, y; int wh; get (i, &pr, &x, &y, &wh);
        judge_layout (doc (body1 (pr, wh)), 0, { { 2, 1 } }, wh, [&] (int w, int h, bool &) { Ext a = axis (x, w), b = axis (y, h); return R4 { a.x, b.x, a.w, b.w }; }, rep); },
      [=] (uint64_t i) { S pr; Axis x, y; int wh; get (i, &pr, &x, &y, &wh); return pr; } });
    // declaring a property as an interface, without a value, changes nothing
    auto none = [=] (uint64_t i, S *pr, Axis *x, Axis *y, int *wh) { Dec d (i); uint64_t m = d.next (512); static const char *NM[] = { "bounds", "location", "size", "right", "bottom", "left", "top", "width", "height" }; Axis ax[2] = { { "-", "-", "-" }, { "-", "-", "-" } }; uint64_t v = d.next (16); *wh = d.next (3); *pr = "";
      for (int k = 0; k < 9; k++) { bool set = k >= 5 && (v >> (k - 5) & 1); if (set) { S val = k == 5 ? "3" : k == 6 ? "25%" : k == 7 ? "50%" : "5"; (k >= 7 ? ax[k % 2 == 0].size : ax[k % 2 == 0].pos) = val; *pr += prop (NM[k], val); } else if (m >> k & 1) *pr += S ("<property name='") + NM[k] + "'/>"; }
      *x = ax[0]; *y = ax[1]; };
    sp.families.push_back ({ "properties declared without a value", 512 * 16 * 3, [=] (uint64_t i, Rep &rep) { S pr; Axis x, y; int wh; none (i, &pr, &x, &y, &wh);
        judge_layout (doc (body1 (pr, wh)), 0, { { 2, 1 } }, wh, [&] (int w, int h, bool &) { Ext a = axis (x, w), b = axis (y, h); return R4 { a.x, b.x, a.w, b.w }; }, rep); },
      [=] (uint64_t i) { S pr; Axis x, y; int wh; none (i, &pr, &x, &y, &wh); return pr; } });
  }
  { // 4. attributions during playback, between resizes
    struct Ini { S pr; Axis x, y; };
    auto I = std::make_shared<std::vector<Ini>> (std::vector<Ini> {
      { prop ("left", "3") + prop ("top", "25%") + prop ("width", "50%") + prop ("height", "5"), { "3", "50%", "-" }, { "25%", "5", "-" } },
      { prop ("right", "10%") + prop ("bottom", "2") + prop ("width", "6") + prop ("height", "50%"), { "-", "6", "10%" }, { "-", "50%", "2" } },
      { prop ("bounds", "1,2,50%,50%"), { "1", "50%", "-" }, { "2", "50%", "-" } },
      { prop ("location", "10%,3") + prop ("size", "5,25%"), { "10%", "5", "-" }, { "3", "25%", "-" } } });
    struct At { S n, v; int init; std::function<void (Axis &, Axis &)> f; };
    auto T = std::make_shared<std::vector<At>> ();
    for (S v : { "0", "7", "50%", "12.5%" }) { T->push_back ({ "left", v, 0, [=] (Axis &x, Axis &) { x.pos = v; } }); T->push_back ({ "top", v, 0, [=] (Axis &, Axis &y) { y.pos = v; } }); T->push_back ({ "right", v, 1, [=] (Axis &x, Axis &) { x.opp = v; } }); T->push_back ({ "bottom", v, 1, [=] (Axis &, Axis &y) { y.opp = v; } }); }
    for (S v : { "0", "4", "100%", "25%" }) { T->push_back ({ "width", v, 4, [=] (Axis &x, Axis &) { x.size = v; } }); T->push_back ({ "height", v, 4, [=] (Axis &, Axis &y) { y.size = v; } }); }
    for (S a : { "0", "50%", "2" }) for (S b : { "3", "10%" }) { T->push_back ({ "location", a + "," + b, 3, [=] (Axis &x, Axis &y) { x.pos = a; y.pos = b; } }); T->push_back ({ "size", b + "," + a, 3, [=] (Axis &x, Axis &y) { x.size = b; y.size = a; } });
      T->push_back ({ "bounds", a + "," + b + "," + b + "," + a, 2, [=] (Axis &x, Axis &y) { x.pos = a; y.pos = b; x.size = b; y.size = a; } }); }
    uint64_t nt = T->size () + 3; int dep = th ? 4 : 3;
    sp.families.push_back ({ fmt ("attributions and resizes, sequences of %d", dep), 4 * vf::ipow (nt, dep), [=] (uint64_t i, Rep &rep) {
        Dec d (i); int k = d.next (4); const Ini &in = (*I)[k]; Axis x = in.x, y = in.y;
        std::vector<int> ops; for (int n = 0; n < dep; n++) { int o = d.next (nt); if (o < (int) T->size ()) { int w = (*T)[o].init; if (!(w == k || (w == 4 && k < 2))) return; } ops.push_back (o); }
        S ncl = doc (body1 (in.pr, 0)); rep.say (ncl); rep.nontrivial = true;
        Play p (ncl, SZ[0][0], SZ[0][1]); if (!p.started) { rep.fail ("harness", p.err); return; }
        for (int o : ops)
          {
            S what;
            if (o < (int) T->size ()) { auto &t = (*T)[o]; what = t.n + ":=" + t.v; if (p.act ("m." + t.n, Event::START, t.v) < 1) { rep.fail ("harness", what + " refused"); return; } t.f (x, y); p.tick (0); }
            else { int z = o - T->size (); p.resize (SZ[z][0], SZ[z][1]); what = fmt ("resize to %dx%d", p.w, p.h); }
            Ext a = axis (x, p.w), b = axis (y, p.h); R4 r = { a.x, b.x, a.w, b.w }; S s = only (p.draw (), r, 0xff0000); rep.steps++; rep.say (what + ": " + str (r)); rep.state (fmt ("%d %d ", p.w, p.h) + str (r));
            if (s != "") { rep.fail ("attribution", "after " + what + ": " + s); return; }
          } },
      [=] (uint64_t i) { Dec d (i); S s = (*I)[d.next (4)].pr; for (int n = 0; n < dep; n++) { int o = d.next (nt); s += o < (int) T->size () ? "; " + (*T)[o].n + ":=" + (*T)[o].v : fmt ("; resize %dx%d", SZ[o - T->size ()][0], SZ[o - T->size ()][1]); } return s; } });
  }
  { // 5. nested regions
    auto B = std::make_shared<std::vector<Axis>> (axes ({ "-", "0", "3", "25%" }, { "-", "5", "50%", "60%" }, { "2", "10%" })); uint64_t nb = B->size ();
    auto few2 = std::make_shared<std::vector<std::vector<Axis>>> (std::vector<std::vector<Axis>> { { { "-", "-", "-" }, { "-", "-", "-" } }, { { "2", "50%", "-" }, { "-", "4", "2" } }, { { "-", "80%", "10%" }, { "25%", "50%", "-" } } });
    auto get = [=] (uint64_t i, std::vector<Axis> *x, std::vector<Axis> *y, int *sc, int *rs) {
      Dec d (i); bool sw = d.next (2); *rs = d.next (4); *sc = d.next (3); *x = { (*B)[d.next (nb)], (*B)[d.next (nb)] }; *y = (*few2)[d.next (3)]; if (th) { x->push_back ((*B)[d.next (nb)]); y->push_back ({ "1", "50%", "-" }); } else if (d.next (2)) { x->push_back ({ "25%", "50%", "-" }); y->push_back ({ "-", "50%", "0" }); } if (sw) std::swap (*x, *y); };
    auto text = [=] (const std::vector<Axis> &x, const std::vector<Axis> &y) { S o, c; for (size_t k = 0; k < x.size (); k++) { o += fmt ("<region id='r%d'", (int) k) + attrs (x[k], 0) + attrs (y[k], 1) + ">"; c += "</region>"; } return "<regionBase>" + o + c + "</regionBase><descriptorBase><descriptor id='d' region='" + fmt ("r%d", (int) x.size () - 1) + "'/></descriptorBase>"; };
    sp.families.push_back ({ "nested regions", 2 * 4 * 3 * nb * nb * 3 * (th ? nb : 2), [=] (uint64_t i, Rep &rep) {
        std::vector<Axis> x, y; int sc, rs; get (i, &x, &y, &sc, &rs);
        long W = SZ[sc][0], H = SZ[sc][1]; R4 r = { 0, 0, W, H }; bool neg = false;
        for (size_t k = 0; k < x.size (); k++) { Ext a = axis (x[k], r.w), b = axis (y[k], r.h); r = { r.x + a.x, r.y + b.x, a.w, b.w }; if (r.x < 0 || r.y < 0) neg = true; }
        if (neg) return;
        auto sc_ = [] (long v, long from, long to, bool &care) { double q = (double) v * to / from; double fr = q - floor (q); if (from != to && fabs (fr - 0.5) < 1e-3) care = false; return rnd (q); };
        judge_layout (doc (body1 ("", 0, " descriptor='d'"), text (x, y)), sc, rs == 3 ? Seq { {} } : Seq { { rs, (rs + 1) % 3 } }, 0, [&] (int w, int h, bool &care) { return R4 { sc_ (r.x, W, w, care), sc_ (r.y, H, h, care), sc_ (r.w, W, w, care), sc_ (r.h, H, h, care) }; }, rep); },
      [=] (uint64_t i) { std::vector<Axis> x, y; int sc, rs; get (i, &x, &y, &sc, &rs); return text (x, y); } });
  }
  { // 6. fractions of a percent and other spellings of numbers, on a long screen
    auto F = std::make_shared<V> (V { "0.7%", "33.3%", "66.67%", "12.34%", "99.9%", "0.05%", "0.049%", ".5%", "1e1%", "+5%", "5.0%", "007", "1e2", "0x10", "17.5", "17.49", "3px", " 5", "1000", "30000" }); uint64_t nf = F->size ();
    auto get = [=] (uint64_t i, S *pr, Axis *x, Axis *y, int *form, int *sc) { Dec d (i); bool sw = d.next (2); *form = d.next (5); Axis a = { "-", "-", "-" }, b = { "-", "-", "-" }; S u = (*F)[d.next (nf)], v = (*F)[d.next (nf)]; *sc = d.next (2);
      if (*form == 0) { a.pos = u; a.size = v; } else if (*form == 1) { a.size = u; a.opp = v; } else if (*form == 2) { a.pos = u; b.size = v; } else if (*form == 3) { a.pos = u; b.pos = v; } else { a.size = u; b.size = v; }
      if (sw) std::swap (a, b); *x = a; *y = b; *pr = props (a, 0) + props (b, 1); };
    sp.families.push_back ({ "fractional percentages and spellings of numbers", 2 * 5 * nf * nf * 2, [=] (uint64_t i, Rep &rep) {
        S pr; Axis x, y; int fo, sc; get (i, &pr, &x, &y, &fo, &sc); int W = sc ? 1000 : 6, H = sc ? 6 : 700; S t = doc (body1 (pr, 0)); rep.say (t); rep.nontrivial = true; Play p (t, W, H); if (!p.started) { rep.fail ("harness", p.err); return; }
        Ext a = axis (x, W), b = axis (y, H); R4 r = { a.x, b.x, a.w, b.w }; S e = only (p.draw (), r, 0xff0000); rep.steps++; rep.state (fmt ("%d ", W) + str (r)); if (e != "") { rep.fail ("layout", e); return; }
        p.resize (H, W); a = axis (x, H); b = axis (y, W); r = { a.x, b.x, a.w, b.w }; e = only (p.draw (), r, 0xff0000); if (e != "") rep.fail ("layout", "resized: " + e); },
      [=] (uint64_t i) { S pr; Axis x, y; int fo, sc; get (i, &pr, &x, &y, &fo, &sc); return pr; } });
  }
  sp.rule = "every combination of position properties and regions of the alphabets, x screen sizes x resize sequences x playback states, drawn by the real player; each picture must consist of the expected rectangle and black";
  sp.assumptions = { "both of left/right (or top/bottom) on the same object, and positions left of or above the screen within regions, are not covered: their meaning is not documented" };
}

// ------------------------------------------------------------------- C19
struct Lay { S z, zo, vis, tr, bg, size, st; };
static const std::map<S, std::array<int, 3>> COL = { { "red", { 255, 0, 0 } }, { "lime", { 0, 255, 0 } }, { "blue", { 0, 0, 255 } }, { "#123456", { 0x12, 0x34, 0x56 } }, { "white", { 255, 255, 255 } }, { "", { 0, 0, 0 } }, { "-", { 0, 0, 0 } },
  { "rgba(255,0,0,0.5)", { 128, 0, 0 } }, { "rgba(0,0,255,0)", { 0, 0, 0 } } }; // the translucent ones: as a screen background, over black
static R4 lrect (int k, const Lay &l) { static const R4 R[] = { { 0, 0, 6, 6 }, { 3, 2, 6, 6 }, { 2, 4, 8, 3 } }; R4 r = R[k]; if (l.size == "w0") r.w = 0; if (l.size == "h0") r.h = 0; return r; }
static double alpha (const S &t) { if (t == "-" || t == "") return 1; bool p; double d = num (t, &p); if (p) d = d * 255 / 100; d = d < 0 ? 0 : d > 255 ? 255 : d; return (255 - rnd (d)) / 255.; }
static S lprops (int k, const Lay &l)
{
  R4 r = lrect (k, l);
  return prop ("left", fmt ("%ld", r.x)) + prop ("top", fmt ("%ld", r.y)) + prop ("width", fmt ("%ld", r.w)) + prop ("height", fmt ("%ld", r.h)) + optprop ("zIndex", l.z) + optprop ("zOrder", l.zo) + optprop ("visible", l.vis) + optprop ("transparency", l.tr) + optprop ("background", l.bg);
}
static bool shown (const Lay &l) { return l.st != "sleeping" && (l.vis == "-" || l.vis == "" || l.vis == "true") && l.bg != "-" && l.bg != "" && l.size == ""; }
// does the picture equal one of the stackings the z values allow?
static S stacked (const Pic &p, std::vector<Lay> ls, const S &fbg)
{
  std::vector<int> o; for (size_t k = 0; k < ls.size (); k++) o.push_back (k);
  auto z = [&] (int k) { auto n = [] (const S &s) { return s == "-" || s == "" ? 0L : (long) num (s); }; return std::make_pair (n (ls[k].z), n (ls[k].zo)); };
  S why; std::sort (o.begin (), o.end ());
  do
    {
      bool sorted = true; for (size_t k = 0; k + 1 < o.size (); k++) if (z (o[k + 1]) < z (o[k])) sorted = false;
      if (!sorted) continue;
      bool ok = true;
      for (int y = 0; y < p.h && ok; y++) for (int x = 0; x < p.w && ok; x++)
        {
          double c[3] = { 0, 0, 0 }; if (fbg != "") for (int k = 0; k < 3; k++) c[k] = COL.at (fbg)[k];
          for (int q : o)
            {
              if (!shown (ls[q])) continue; R4 r = lrect (q, ls[q]); if (x < r.x || x >= r.x + r.w || y < r.y || y >= r.y + r.h) continue;
              double a = alpha (ls[q].tr); for (int k = 0; k < 3; k++) c[k] = c[k] * (1 - a) + a * COL.at (ls[q].bg)[k];
            }
          Px g = p.at (x, y); int v[] = { g.r, g.g, g.b };
          for (int k = 0; k < 3; k++) if (fabs (c[k] - v[k]) > 4) { ok = false; why = fmt ("pixel (%d,%d) is #%02x%02x%02x instead of #%02x%02x%02x", x, y, g.r, g.g, g.b, (int) rnd (c[0]), (int) rnd (c[1]), (int) rnd (c[2])); }
        }
      if (ok) return "";
    }
  while (std::next_permutation (o.begin (), o.end ()));
  return why;
}
static S lshow (const std::vector<Lay> &ls, const S &bg) { S s = "screen '" + bg + "'"; for (auto &l : ls) s += fmt (" | z=%s/%s visible=%s transparency=%s background=%s %s %s", l.z.c_str (), l.zo.c_str (), l.vis.c_str (), l.tr.c_str (), l.bg.c_str (), l.size.c_str (), l.st.c_str ()); return s; }
static S ltext (const std::vector<Lay> &ls)
{
  S b = "<media id='o'/><port id='po' component='o'/>"; static const char *id[] = { "a", "b", "c" };
  for (size_t k = 0; k < ls.size (); k++) { b += medium (id[k], lprops (k, ls[k])); if (ls[k].st != "sleeping" && ls[k].st != "nested" && ls[k].st != "npaused") b += fmt ("<port id='p%d' component='%s'/>", (int) k, id[k]); }
  return doc (b);
}
static void setstate (Play &p, const std::vector<Lay> &ls)
{
  static const char *id[] = { "a", "b", "c" };
  for (size_t k = 0; k < ls.size (); k++) { S e = S (id[k]) + "@lambda"; if (ls[k].st == "paused") p.act (e, Event::PAUSE); if (ls[k].st == "stopped") p.act (e, Event::STOP); if (ls[k].st == "again") { p.act (e, Event::STOP); p.act (e, Event::START); } }
}
static bool judge_pic (Play &p, std::vector<Lay> ls, const S &bg, const S &when, Rep &rep)
{
  for (auto &l : ls) if (l.st == "stopped") l.st = "sleeping";
  S before = p.states (); Pic q = p.draw (); rep.steps++;
  if (p.states () != before) { rep.fail ("redraw-changes", when + ": drawing changed the playback state from " + before + " to " + p.states ()); return false; }
  S s = stacked (q, ls, bg); rep.state (lshow (ls, bg)); if (s != "") { rep.fail ("picture", when + ": " + s); return false; }
  if (!(p.draw () == q)) { rep.fail ("redraw-twice", when + ": drawing again gives another picture"); return false; }
  return true;
}
static void judge_lay (const std::vector<Lay> &ls, const S &bg, Rep &rep)
{
  S t = ltext (ls); rep.say (t); rep.nontrivial = true; Play p (t, 12, 10, bg); if (!p.started) { rep.fail ("harness", p.err); return; }
  setstate (p, ls); if (!judge_pic (p, ls, bg, "at start", rep)) return;
  p.tick (1); judge_pic (p, ls, bg, "after a tick", rep);
}
static void c19 (Spec &sp)
{
  bool th = vf::thorough ();
  static const V Z = { "-", "0", "1", "-1", "10", "2" }, ZO = { "-", "1", "2", "-1" }, CS = { "red", "lime", "blue" };
  sp.families.push_back ({ "zIndex x zOrder of three media", 24 * 24 * 24, [=] (uint64_t i, Rep &r) { Dec d (i); std::vector<Lay> l; for (int k = 0; k < 3; k++) { S a = Z[d.next (6)], b = ZO[d.next (4)]; l.push_back ({ a, b, "-", "-", CS[k], "", "" }); } judge_lay (l, "", r); },
    [=] (uint64_t i) { Dec d (i); S s; for (int k = 0; k < 3; k++) { S a = Z[d.next (6)], b = ZO[d.next (4)]; s += a + "/" + b + " "; } return s; } });
  static const V ZX = { "-2147483648", "2147483647", "-2147483647", "65536", "-65536", "256", "0", "32768" }, ZY = { "-", "2147483647", "-2147483648", "300" };
  sp.families.push_back ({ "extreme zIndexes and zOrders of two media", 8 * 8 * 4 * 4, [=] (uint64_t i, Rep &r) { Dec d (i); std::vector<Lay> l; S z[2] = { ZX[d.next (8)], ZX[d.next (8)] }; for (int k = 0; k < 2; k++) l.push_back ({ z[k], ZY[d.next (4)], "-", "-", CS[k], "", "" }); judge_lay (l, "", r); },
    [=] (uint64_t i) { Dec d (i); S a = ZX[d.next (8)], b = ZX[d.next (8)], c = ZY[d.next (4)], e = ZY[d.next (4)]; return a + "/" + c + " " + b + "/" + e; } });
  static const V VI = { "-", "true", "false", "" }, TR = { "-", "0%", "50%", "100%", "25%", "51", "300", "-5" }, BG = { "red", "-", "#123456", "" }, SI = { "", "w0", "h0" }, ST = { "", "paused", "sleeping", "stopped", "again" };
  auto one = [=] (Dec &d, int k) { Lay l; l.vis = VI[d.next (4)]; l.tr = TR[d.next (8)]; l.bg = BG[d.next (4)]; l.size = SI[d.next (3)]; l.st = ST[d.next (5)]; l.z = k ? "1" : "0"; l.zo = "-"; return l; };
  const uint64_t N1 = 4 * 8 * 4 * 3 * 5;
  static const Lay OV[] = { { "1", "-", "-", "50%", "lime", "", "" }, { "1", "-", "-", "-", "lime", "", "" }, { "-1", "-", "-", "-", "white", "", "" }, { "1", "-", "-", "25%", "blue", "", "paused" } };
  static const V FB = { "", "blue", "#123456", "rgba(255,0,0,0.5)", "rgba(0,0,255,0)" };
  auto two = [=] (uint64_t i, S *bg) { Dec d (i); Lay a = one (d, 0); *bg = FB[d.next (FB.size ())]; Lay b = OV[d.next (4)]; return std::vector<Lay> { a, b }; };
  sp.families.push_back ({ "visibility x transparency x background x size x state of a medium, with another and the screen's background", N1 * FB.size () * 4, [=] (uint64_t i, Rep &r) { S bg; auto l = two (i, &bg); judge_lay (l, bg, r); }, [=] (uint64_t i) { S bg; auto l = two (i, &bg); return lshow (l, bg); } });
  if (th)
    sp.families.push_back ({ "visibility x transparency x background x size x state of two media", N1 * N1, [=] (uint64_t i, Rep &r) { Dec d (i); std::vector<Lay> l = { one (d, 0), one (d, 1) }; judge_lay (l, "", r); }, [=] (uint64_t i) { Dec d (i); Lay a = one (d, 0), b = one (d, 1); return lshow ({ a, b }, ""); } });
  { // changes during playback
    struct Ch { S what; std::function<void (Play &, std::vector<Lay> &, S &)> f; }; auto C = std::make_shared<std::vector<Ch>> ();
    auto at = [&] (int k, const S &n, const S &v, S Lay::*m) { static const char *id[] = { "a", "b" }; S e = S (id[k]) + "." + n; C->push_back ({ e + ":=" + v, [=] (Play &p, std::vector<Lay> &l, S &) { if (p.ev (e)->getState () != Event::SLEEPING) return; /* paused media: the previous one has not ended */ p.act (e, Event::START, v); p.tick (0); l[k].*m = v; } }); };
    for (int k = 0; k < 2; k++) { for (S v : { "5", "-2" }) at (k, "zIndex", v, &Lay::z); at (k, "zOrder", "3", &Lay::zo); for (S v : { "false", "true" }) at (k, "visible", v, &Lay::vis); for (S v : { "100%", "0%", "128" }) at (k, "transparency", v, &Lay::tr); for (S v : { "white", "" }) at (k, "background", v, &Lay::bg);
      static const char *id[] = { "a", "b" }; S e = S (id[k]) + "@lambda";
      C->push_back ({ "stop " + e, [=] (Play &p, std::vector<Lay> &l, S &) { p.act (e, Event::STOP); l[k].st = "sleeping"; } });
      C->push_back ({ "start " + e, [=] (Play &p, std::vector<Lay> &l, S &) { p.act (e, Event::START); l[k].st = ""; } });
      C->push_back ({ "pause " + e, [=] (Play &p, std::vector<Lay> &l, S &) { p.act (e, Event::PAUSE); if (l[k].st == "") l[k].st = "paused"; } }); }
    for (S v : { "blue", "", "rgba(255,0,0,0.5)" }) C->push_back ({ "screen background:=" + v, [=] (Play &p, std::vector<Lay> &, S &bg) { p.f->setOptionString ("background", v); bg = v; } });
    C->push_back ({ "tick", [=] (Play &p, std::vector<Lay> &, S &) { p.tick (1); } });
    uint64_t n = C->size (); int dep = th ? 4 : 3;
    sp.families.push_back ({ fmt ("changes during playback, sequences of %d", dep), vf::ipow (n, dep), [=] (uint64_t i, Rep &rep) {
        Dec d (i); std::vector<Lay> l = { { "0", "0", "true", "50%", "red", "", "" }, { "0", "1", "true", "0%", "lime", "", "" } }; S bg;
        S t = ltext (l); rep.say (t); rep.nontrivial = true; Play p (t, 12, 10, bg); if (!p.started) { rep.fail ("harness", p.err); return; }
        for (int k = 0; k < dep; k++) { auto &c = (*C)[d.next (n)]; rep.say (c.what); c.f (p, l, bg); if (!judge_pic (p, l, bg, "after " + c.what, rep)) return; } },
      [=] (uint64_t i) { Dec d (i); S s; for (int k = 0; k < dep; k++) s += (*C)[d.next (n)].what + "; "; return s; } });
  }
  { // pictures from files, at their own size; nested contexts
    static const V IT = { "-", "50%", "100%", "25%" };
    sp.families.push_back ({ "image files", 4 * 3 * 3 * 3 * 2, [=] (uint64_t i, Rep &rep) {
        Dec d (i); S tr = IT[d.next (4)], bg = BG[d.next (3)], st = ST[d.next (3)]; int sz = d.next (3); bool svg = d.next (2);
        S png = Play::dir () + "/i.png"; static bool once = false;
        if (!once) { cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, 4, 2); cairo_t *cr = cairo_create (s); cairo_set_source_rgb (cr, 0, 1, 0); cairo_paint (cr); cairo_set_source_rgb (cr, 0, 0, 1); cairo_rectangle (cr, 2, 0, 2, 2); cairo_fill (cr); cairo_destroy (cr); cairo_surface_write_to_png (s, png.c_str ()); cairo_surface_destroy (s); once = true; }
        long w = sz == 0 ? 4 : sz == 1 ? 8 : 12, h = sz == 0 ? 2 : sz == 1 ? 8 : 10; if (svg) return;
        S t = doc (medium ("a", prop ("left", "0") + prop ("top", "0") + prop ("width", fmt ("%ld", w)) + prop ("height", fmt ("%ld", h)) + optprop ("transparency", tr) + optprop ("background", bg), " src='i.png'") + (st == "sleeping" ? S () : S ("<port id='p' component='a'/>")) + "<media id='o'/><port id='q' component='o'/>");
        rep.say (t); rep.nontrivial = true; Play p (t, 12, 10, "white"); if (!p.started) { rep.fail ("harness", p.err); return; } if (st == "paused") p.act ("a@lambda", Event::PAUSE);
        S b4 = p.states (); Pic q = p.draw (); rep.steps++; double a = alpha (tr);
        if (p.states () != b4) rep.fail ("redraw-changes", "drawing changed the playback state"); if (!(p.draw () == q)) rep.fail ("redraw-twice", "drawing again gives another picture");
        for (int y = 0; y < 10; y++) for (int x = 0; x < 12; x++)
          {
            double c[3] = { 255, 255, 255 }; bool in = x < w && y < h && st != "sleeping";
            double ex = w / 4., ey = h / 2.; if (!in && sz && st != "sleeping" && x < w + ex && y < h + ey) continue;    // so is the fringe
            if (in && sz && (fabs (x + .5 - 2 * ex) < ex + 1 || x + 1 > w - ex || x < ex || y < h / 2. || y + 1 > h / 2.)) { if (!(x + .5 > ex * .6 && x + .5 < ex * 1.2 && y + .5 > h * .3 && y + .5 < h * .7) && !(x + .5 > ex * 2.8 && x + .5 < ex * 3.3 && y + .5 > h * .3 && y + .5 < h * .7)) continue; } // interpolated
            if (in) { if (bg != "-" && bg != "") for (int k = 0; k < 3; k++) c[k] = c[k] * (1 - a) + a * COL.at (bg)[k]; int I[3] = { 0, x < w / 2 ? 255 : 0, x < w / 2 ? 0 : 255 }; for (int k = 0; k < 3; k++) c[k] = c[k] * (1 - a) + a * I[k]; }
            Px g = q.at (x, y); int v[] = { g.r, g.g, g.b }; for (int k = 0; k < 3; k++) if (fabs (c[k] - v[k]) > 6) rep.fail ("image", fmt ("pixel (%d,%d) is #%02x%02x%02x instead of #%02x%02x%02x", x, y, g.r, g.g, g.b, (int) rnd (c[0]), (int) rnd (c[1]), (int) rnd (c[2])));
          }
        rep.state (fmt ("%llu", (unsigned long long) i)); }, [=] (uint64_t i) { return fmt ("image case %llu", (unsigned long long) i); } });
    // text: glyphs themselves are not compared, but where they may be and what they may be made of
    static const V TX = { "", "A", "two words\nand lines", "\xc3\xa9\xe2\x82\xac", "\xff\xfe", "   " }, FB_ = { "-", "red", "" }, HA = { "-", "left", "center", "right", "justified" }, VA = { "-", "top", "middle", "bottom" }, FZ = { "-", "7", "80", "0" }, TS = { "", "w0", "h0", "1x1" };
    static const std::vector<std::pair<S, S>> FE = { { "", "" }, { "fontWeight", "bold" }, { "fontStyle", "italic" }, { "fontVariant", "small-caps" }, { "fontFamily", "monospace" }, { "fontFamily", "no such font" } };
    sp.families.push_back ({ "text media", 6ull * 3 * 5 * 4 * 4 * 4 * 6 * 2, [=] (uint64_t i, Rep &rep) {
        Dec d (i); int tx = d.next (6); S fb = FB_[d.next (3)], ha = HA[d.next (5)], va = VA[d.next (4)], fz = FZ[d.next (4)], ts = TS[d.next (4)]; auto fe = FE[d.next (6)]; bool late = d.next (2);
        if (!th && (fe.first != "") + (fz != "-") + (ha != "-") + (va != "-") > 2) return;
        for (int k = 0; k < 6; k++) { static unsigned long made = 0; if (!(made & 1ul << k)) { vf::write_file (Play::dir () + fmt ("/t%d.txt", k), TX[k]); made |= 1ul << k; } }
        R4 r = { 2, 3, 14, 12 }; if (ts == "w0") r.w = 0; if (ts == "h0") r.h = 0; if (ts == "1x1") r.w = r.h = 1;
        S geo = prop ("left", "2") + prop ("top", "3") + prop ("width", fmt ("%ld", r.w)) + prop ("height", fmt ("%ld", r.h)); std::vector<std::pair<S, S>> st = { { "fontBgColor", fb }, { "horzAlign", ha }, { "vertAlign", va }, { "fontSize", fz }, { "fontColor", "lime" } }; if (fe.first != "") st.push_back (fe);
        S all; for (auto &x : st) all += optprop (x.first, x.second);
        auto text = [&] (const S &q) { return doc (medium ("m", geo + q, fmt (" src='t%d.txt'", tx)) + "<media id='o'/><port id='p' component='m'/><port id='q' component='o'/>"); };
        rep.say (text (all)); rep.nontrivial = tx > 0; Play p (text (all), 20, 18); if (!p.started) { rep.fail ("harness", p.err); return; }
        S b4 = p.states (); Pic q = p.draw (); rep.steps++; rep.state (fmt ("%llx", (unsigned long long) vf::hash (S ((char *) q.p.data (), q.p.size () * 4))));
        if (p.states () != b4) rep.fail ("redraw-changes", "drawing changed the playback state"); if (!(p.draw () == q)) rep.fail ("redraw-twice", "drawing again gives another picture");
        bool ink = false;
        for (int y = 0; y < q.h; y++) for (int x = 0; x < q.w; x++)
          {
            Px g = q.at (x, y); bool in = x >= r.x && x < r.x + r.w && y >= r.y && y < r.y + r.h; if (g.g > 40) ink = true;
            if (!in && (g.r || g.g || g.b)) rep.fail ("text-outside", fmt ("pixel (%d,%d), outside the text's rectangle, is #%02x%02x%02x", x, y, g.r, g.g, g.b));
            if (g.b > 2 || (fb != "red" && g.r > 2)) rep.fail ("text-colour", fmt ("pixel (%d,%d) is #%02x%02x%02x: neither the text's colour nor its background", x, y, g.r, g.g, g.b));
          }
        if (tx == 1 && ts == "" && fz == "-" && fe.first == "" && !ink) rep.fail ("text-missing", "no text is drawn");
        if (late)
          { Play l (text (""), 20, 18); for (auto &x : st) if (x.second != "-") cast (Media *, l.doc ()->getObjectById ("m"))->setProperty (x.first, x.second); if (!(l.draw () == q)) rep.fail ("text-late", "the same properties set at run time give another picture");
            if (ts != "1x1") for (int k = 0; k < 2; k++) { Media *m = cast (Media *, l.doc ()->getObjectById ("m")); m->setProperty (k ? "height" : "width", "5"); l.draw (); m->setProperty (k ? "height" : "width", fmt ("%ld", k ? r.h : r.w)); if (!(l.draw () == q)) rep.fail ("text-late", S ("after the ") + (k ? "height" : "width") + " is changed and changed back the picture differs"); }
            p.resize (21, 18); p.resize (20, 18); p.tick (1); if (!(p.draw () == q)) rep.fail ("text-resize", "after a resize and back the picture differs"); } },
      [=] (uint64_t i) { Dec d (i); int tx = d.next (6); S fb = FB_[d.next (3)], ha = HA[d.next (5)], va = VA[d.next (4)], fz = FZ[d.next (4)], ts = TS[d.next (4)]; auto fe = FE[d.next (6)]; return fmt ("text %d fontBgColor=%s align %s,%s size %s in %s %s %s", tx, fb.c_str (), ha.c_str (), va.c_str (), fz.c_str (), ts.c_str (), fe.first.c_str (), fe.second.c_str ()); } });
    // the border of the focused medium
    static const V FC = { "-", "red", "#123456", "white", "" }, FT = { "-", "0%", "50%", "100%", "25%", "" }, FBG = { "-", "lime" }, FTR = { "-", "100%", "50%" }; static const int FS[][2] = { { 10, 8 }, { 10, 1 }, { 0, 8 }, { 10, 0 } };
    sp.families.push_back ({ "focus border", 5ull * 6 * 2 * 3 * 4 * 3 * 2, [=] (uint64_t i, Rep &rep) {
        Dec d (i); S fc = FC[d.next (5)], ft = FT[d.next (6)], bg = FBG[d.next (2)], tr = FTR[d.next (3)]; const int *sz = FS[d.next (4)]; int how = d.next (3); bool vis = d.next (2);
        R4 r[2] = { { 3, 4, sz[0], sz[1] }, { 20, 4, 9, 9 } };
        auto m = [&] (int k) { return medium (k ? "b" : "a", prop ("left", fmt ("%ld", r[k].x)) + prop ("top", fmt ("%ld", r[k].y)) + prop ("width", fmt ("%ld", r[k].w)) + prop ("height", fmt ("%ld", r[k].h)) + prop ("focusIndex", k ? "2" : "1") + (k ? prop ("focusBorderColor", "white") + prop ("background", "blue") + prop ("moveLeft", "1") : optprop ("focusBorderColor", fc) + optprop ("focusBorderTransparency", ft) + optprop ("background", bg) + optprop ("transparency", tr) + prop ("moveRight", "2") + (vis ? S () : prop ("visible", "false")))); };
        S t = doc (m (0) + m (1) + "<port id='p' component='a'/><port id='q' component='b'/>"); rep.say (t); rep.nontrivial = true; Play p (t, 34, 18); if (!p.started) { rep.fail ("harness", p.err); return; } p.tick (1);
        auto look = [&] (int focused, const S &when) {
          Pic q = p.draw (); rep.steps++; rep.state (fmt ("%llx", (unsigned long long) vf::hash (S ((char *) q.p.data (), q.p.size () * 4))));
          for (int k = 0; k < 2; k++)
            {
              bool drawn = k || (vis && r[0].w > 0 && r[0].h > 0); double a = k ? 1 : alpha (tr), fa = k ? 1 : alpha (ft); std::array<int, 3> bc = k ? COL.at ("blue") : COL.at (bg), fcol = k ? COL.at ("white") : fc == "-" || fc == "" ? std::array<int, 3> { 255, 255, 0 } : COL.at (fc); if (!k && bg == "-") a = 0;
              for (int y = 0; y < 18; y++) for (int x = k ? 17 : 0; x < (k ? 34 : 17); x++)
                {
                  bool in = drawn && x >= r[k].x && x < r[k].x + r[k].w && y >= r[k].y && y < r[k].y + r[k].h; double c[3]; for (int n = 0; n < 3; n++) c[n] = in ? a * bc[n] : 0;
                  long dx = x < r[k].x ? r[k].x - x : x >= r[k].x + r[k].w ? x - (r[k].x + r[k].w) + 1 : std::max (r[k].x - 1 - x, x - (r[k].x + r[k].w)), dy = y < r[k].y ? r[k].y - y : y >= r[k].y + r[k].h ? y - (r[k].y + r[k].h) + 1 : std::max (r[k].y - 1 - y, y - (r[k].y + r[k].h));
                  bool edge = in && (dx == -1 || dy == -1), near = drawn && dx <= 4 && dy <= 4 && (dx > 0 || dy > 0 || dx >= -4 || dy >= -4);
                  if (focused == k && drawn) { if (edge) for (int n = 0; n < 3; n++) c[n] = c[n] * (1 - fa) + fa * fcol[n]; else if (near) continue; }   // the border's width is not judged
                  Px g = q.at (x, y); int v[] = { g.r, g.g, g.b }; for (int n = 0; n < 3; n++) if (fabs (c[n] - v[n]) > 4) { rep.fail ("focus-border", when + fmt (": pixel (%d,%d) is #%02x%02x%02x instead of #%02x%02x%02x", x, y, g.r, g.g, g.b, (int) rnd (c[0]), (int) rnd (c[1]), (int) rnd (c[2]))); return false; }
                }
            }
          return true; };
        if (!look (0, "a has the focus")) return;
        if (how >= 1) { p.f->sendKey ("CURSOR_RIGHT", true); p.f->sendKey ("CURSOR_RIGHT", false); p.tick (1); if (!look (1, "b has the focus")) return; }
        if (how == 2) { p.f->sendKey ("CURSOR_LEFT", true); p.tick (1); if (!look (0, "a has it again")) return; p.act ("a@lambda", Event::STOP); p.tick (1); p.act ("a@lambda", Event::START); p.tick (1); look (0, "a was restarted"); } },
      [=] (uint64_t i) { Dec d (i); S fc = FC[d.next (5)], ft = FT[d.next (6)], bg = FBG[d.next (2)]; return "focusBorderColor " + fc + " transparency " + ft + " background " + bg; } });
    static const V CO = { "", "pause c", "stop c", "pause c, resume c", "stop c, start c", "pause a", "pause body", "pause body, resume body", "abort c" };
    sp.families.push_back ({ "media in a context that is paused, stopped or restarted", 9, [=] (uint64_t i, Rep &rep) {
        std::vector<Lay> l = { { "0", "-", "-", "-", "red", "", "" }, { "1", "-", "-", "50%", "lime", "", "" } };
        S t = doc ("<context id='c'><port id='p' component='a'/>" + medium ("a", lprops (0, l[0])) + "</context>" + medium ("b", lprops (1, l[1])) + "<port id='q' component='c'/><port id='r' component='b'/>"); t.replace (t.find ("<body>"), 6, "<body id='body'>");
        rep.say (t); rep.nontrivial = true; Play p (t, 12, 10); if (!p.started) { rep.fail ("harness", p.err); return; } p.tick (0); if (!judge_pic (p, l, "", "at start", rep)) return;   // each level of ports takes a tick
        S s = CO[i]; size_t b = 0; while (b < s.size ()) { size_t e = s.find (", ", b); if (e == S::npos) e = s.size (); S o = s.substr (b, e - b); b = e + 2; size_t sp_ = o.find (' '); S v = o.substr (0, sp_), ob = o.substr (sp_ + 1); if (ob == "body") ob = "__root__"; Event *ev = p.ev (ob + "@lambda"); if (!ev) { rep.fail ("harness", "no " + ob); return; }
            p.act (ob + "@lambda", v == "pause" ? Event::PAUSE : v == "stop" ? Event::STOP : v == "abort" ? Event::ABORT : v == "resume" ? Event::RESUME : Event::START); p.tick (0); p.tick (0); if (ob == "c") l[0].st = v == "stop" || v == "abort" ? "sleeping" : ""; if (!judge_pic (p, l, "", "after " + o, rep)) return; p.tick (1); if (!judge_pic (p, l, "", "a tick after " + o, rep)) return; } }, [=] (uint64_t i) { return CO[i]; } });
  }
  sp.rule = "every assignment of the alphabets' values to two or three overlapping media, in every playback state, and every sequence of changes to a depth: each picture drawn by the real player must equal a composition computed independently, drawing must change no state and be repeatable";
  sp.assumptions = { "equal zIndex and zOrder leave the order open; the width of the focus border is not judged; text glyphs are not compared" };
}
#include "play2.h"
#include "mem.h"

int main (int argc, char **argv)
{
  if (argc < 2) return 2;
  Spec sp; sp.property = argv[1]; sp.level = "model_checking";
  if (sp.property == "C18") c18 (sp); else if (sp.property == "C19") c19 (sp); else if (sp.property == "C20") c20 (sp); else if (sp.property == "C28") c28 (sp);
  else if (sp.property == "C25")
    {
      c28 (sp); sp.families.pop_back ();
      if (!vf::thorough ()) vf::thin (sp.families[0], 7, "pair");
      mem (sp);
      sp.rule = "all sequences of operations over documents that use every part of the library (links, switches, references, focus, regions, transitions, animations, text, images), and every type x extension: executed repeatedly in one process with fresh memory filled with other bytes";
    }
  else { fprintf (stderr, "unknown property\n"); return 2; }
  return vf::run (sp, argc, argv);
}
