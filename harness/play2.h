// C20 animation and transitions; C28 player kinds, defaults, aliases.
#include "PlayerImage.h"
#include "PlayerText.h"
#include "PlayerVideo.h"
#include "PlayerSigGen.h"
#include "PlayerRemote.h"
#include "PlayerLua.h"
#include "PlayerSvg.h"
#include <typeinfo>

// ------------------------------------------------------------------- C20
static const double TK[] = { 0.25, 0.5, 1, 2.5 };
// A displayed quantity: between attributions it is `v'; during an animation it moves from `lo'..`hi' hulls.
struct Qty
{
  double v = 0; bool run = false, lin = false; double t0 = 0, d = 0, from = 0, lo = 0, hi = 0, last = 0; bool seen = false;
  void at_once (double to) { v = to; run = false; }
  double shown (double e) const { if (!run || e - t0 >= d) return v; return from + (v - from) * (e - t0) / d; }
  void animate (double to, double e, double dur, bool known)
  {
    if (dur <= 0) { at_once (to); return; }
    bool busy = run && e - t0 < d; double cur = shown (e);
    lo = std::min ({ busy ? lo : v, cur, to }); hi = std::max ({ busy ? hi : v, cur, to }); lin = known && !busy; from = cur; v = to; t0 = e; d = dur; run = true; seen = false;
  }
  // is a drawn value acceptable at playing time e?
  bool ok (double e, double got, double tol, S *why)
  {
    if (!run || e - t0 >= d - 1e-9) { run = false; if (fabs (got - v) > (tol > 1 ? tol : 0)) { *why = fmt ("is %g instead of %g", got, v); return false; } return true; }
    double x = from + (v - from) * (e - t0) / d;
    if (lin && fabs (got - x) > 1 + tol) { *why = fmt ("is %g, %g s into a %g s change from %g to %g (expected about %g)", got, e - t0, d, from, v, x); return false; }
    if (got < lo - 1 - tol || got > hi + 1 + tol) { *why = fmt ("is %g, outside %g..%g", got, lo, hi); return false; }
    if (lin && seen && (v >= from ? got < last - tol : got > last + tol)) { *why = fmt ("went from %g to %g on the way from %g to %g", last, got, from, v); return false; }
    last = got; seen = true; return true;
  }
};
// the quantities a medium shows: x y w h, red green blue
struct Shown { Qty q[7]; };
static const int W0 = 24, H0 = 18;
struct Prop { S n, v0, v1; };
// apply an attribution to the model
static void assign (Shown &m, const S &n, const S &v, double e, double dur, int W, int H, bool known, int tr, const S &bg)
{
  auto list = [] (const S &s) { V r; S c; for (char k : s + ",") if (k == ',') { r.push_back (c); c = ""; } else if (k != ' ') c += k; return r; };
  static const S AX[] = { "left", "top", "width", "height" };
  for (int k = 0; k < 4; k++) if (n == AX[k]) m.q[k].animate (res (v, k % 2 ? H : W), e, dur, known);
  if (n == "bounds" || n == "location" || n == "size") { V l = list (v); int o = n == "size" ? 2 : 0; for (size_t k = 0; k < l.size (); k++) m.q[o + k].animate (res (l[k], k % 2 ? H : W), e, dur, known); }
  if (n == "transparency" || n == "background")
    { auto &c = COL.at (n == "background" ? v : bg); double a = n == "transparency" ? alpha (v) : alpha (fmt ("%d", tr)); for (int k = 0; k < 3; k++) m.q[4 + k].animate (c[k] * a, e, dur, known); }
}
// measure a picture: one coloured rectangle over black
static bool measure (const Pic &p, double *o)
{
  long x0 = 1 << 30, y0 = x0, x1 = -1, y1 = -1; uint32_t col = 0;
  for (int y = 0; y < p.h; y++) for (int x = 0; x < p.w; x++) if (uint32_t v = p.p[y * p.w + x]) { if (col && v != col) return false; col = v; x0 = std::min<long> (x0, x); y0 = std::min<long> (y0, y); x1 = std::max<long> (x1, x); y1 = std::max<long> (y1, y); }
  if (x1 < 0) { o[0] = -1; return true; }
  for (int y = y0; y <= y1; y++) for (int x = x0; x <= x1; x++) if (p.p[y * p.w + x] != col) return false;
  o[0] = x0; o[1] = y0; o[2] = x1 - x0 + 1; o[3] = y1 - y0 + 1; o[4] = col >> 16 & 255; o[5] = col >> 8 & 255; o[6] = col & 255; return true;
}
static bool judge_anim (Play &p, Shown &m, double e, const S &when, Rep &rep)
{
  double g[7]; Pic q = p.draw (); rep.steps++; S why; static const char *N[] = { "left", "top", "width", "height", "red", "green", "blue" };
  if (!measure (q, g)) { rep.fail ("picture", when + ": the picture is not one rectangle of one colour"); return false; }
  bool dark = true; for (int k = 4; k < 7; k++) if (m.q[k].v > 3 || (m.q[k].run && e - m.q[k].t0 < m.q[k].d)) dark = false;
  for (int k = 2; k < 4; k++) { auto &a = m.q[k]; if (a.run && e - a.t0 < a.d - 1e-9 ? std::min (a.lo, a.shown (e)) < 1.5 : a.v < 0.5) dark = true; }
  if (g[0] < 0) { if (dark) return true; bool maybe = false; for (int k = 4; k < 7; k++) if (m.q[k].run && m.q[k].lo < 4) maybe = true; if (maybe) { // nearly transparent
        double mx = 0; for (int k = 4; k < 7; k++) mx = std::max (mx, m.q[k].lin ? m.q[k].shown (e) : 0); if (mx < 5) return true; } rep.fail ("gone", when + ": nothing is drawn"); return false; }
  // clipped at the screen's edges: compare what can be seen
  S st; for (int k = 0; k < 7; k++) st += fmt ("%g ", g[k]); rep.state (st); rep.say (when + ": " + st);
  for (int k = 0; k < 7; k++)
    {
      int B = k % 2 ? p.h : p.w;
      if (k == 2 || k == 3) { double far = m.q[k - 2].shown (e) + m.q[k].shown (e); bool runs = m.q[k].run || m.q[k - 2].run; if (far > B - (runs ? 2 : 0)) { m.q[k].seen = false; if (!runs && g[k - 2] + g[k] != B) { rep.fail ("value", when + ": " + N[k] + " leaves space on the screen"); return false; } continue; } }
      if (!m.q[k].ok (e, g[k], k < 4 ? 0 : 4, &why)) { rep.fail ("value", when + ": " + N[k] + " " + why); return false; }
    }
  return true;
}
static S base (const Prop *pr, S *extra = nullptr)
{
  // explicit starting values, except for the property under test when it has none
  std::map<S, S> d = { { "left", "2" }, { "top", "3" }, { "width", "6" }, { "height", "5" }, { "transparency", "0" }, { "background", "red" } };
  if (pr) { if (pr->n == "bounds" || pr->n == "location") { d.erase ("left"); d.erase ("top"); } if (pr->n == "bounds" || pr->n == "size") { d.erase ("width"); d.erase ("height"); } d[pr->n] = pr->v0; }
  S s; for (auto &x : d) s += x.second == "-" ? "<property name='" + x.first + "'/>" : prop (x.first, x.second);
  return s;
}
static Shown begin (const Prop *pr)
{
  Shown m; static const double I[7] = { 2, 3, 6, 5, 255, 0, 0 }; for (int k = 0; k < 7; k++) m.q[k].v = I[k];
  if (pr && (pr->n == "bounds" || pr->n == "location") ) { m.q[0].v = m.q[1].v = 0; }
  if (pr && (pr->n == "bounds" || pr->n == "size")) { m.q[2].v = W0; m.q[3].v = H0; }
  if (pr && pr->v0 != "-") assign (m, pr->n, pr->v0, 0, 0, W0, H0, true, 0, "red");
  if (pr && pr->v0 == "-") { if (pr->n == "left") m.q[0].v = 0; if (pr->n == "top") m.q[1].v = 0; if (pr->n == "width") m.q[2].v = W0; if (pr->n == "height") m.q[3].v = H0; if (pr->n == "background") for (int k = 4; k < 7; k++) m.q[k].v = 0; }
  return m;
}
static S adoc (const S &props, const S &extra = "") { return doc (medium ("m", props) + "<media id='o'/><port id='p' component='m'/><port id='q' component='o'/>" + extra); }

static void c20 (Spec &sp)
{
  bool th = vf::thorough ();
  auto P = std::make_shared<std::vector<Prop>> (std::vector<Prop> {
    { "left", "2", "12" }, { "left", "10", "0" }, { "left", "25%", "50%" }, { "left", "2", "2" }, { "left", "-", "9" }, { "left", "50%", "3" },
    { "top", "3", "11" }, { "top", "50%", "0" }, { "top", "-", "50%" }, { "top", "0", "7.4" },
    { "width", "6", "14" }, { "width", "14", "1" }, { "width", "50%", "10%" }, { "width", "-", "5" }, { "width", "8", "0" },
    { "height", "5", "12" }, { "height", "50%", "25%" }, { "height", "-", "4" }, { "height", "12", "2" },
    { "transparency", "0", "255" }, { "transparency", "0%", "50%" }, { "transparency", "100%", "0" }, { "transparency", "40%", "80%" }, { "transparency", "-", "100%" }, { "transparency", "200", "51" },
    { "background", "red", "blue" }, { "background", "#123456", "white" }, { "background", "white", "#123456" }, { "background", "lime", "red" },
    { "bounds", "2,3,6,5", "10,8,12,9" }, { "bounds", "25%,50%,25%,50%", "0,0,50%,25%" }, { "bounds", "1, 2, 3, 4", "12 , 10 , 5 , 6" }, { "bounds", "-", "2,3,4,5" },
    { "location", "2,3", "12,9" }, { "location", "50%,50%", "0,0" }, { "location", "-", "4,5" }, { "size", "6,5", "12,2" }, { "size", "50%,25%", "25%,50%" }, { "size", "-", "7,8" } });
  static const V DU = { "", "0s", "0.5s", "1s", "2s", "00:00:01" }; static const double DN[] = { 0, 0, .5, 1, 2, 1 };
  uint64_t np = P->size (); int L = th ? 4 : 3; uint64_t nt = vf::ipow (4, L), nm = 1u << (L - 1);
  // 1. one animation: every tick partition and drawing schedule, pausing at one point
  sp.families.push_back ({ fmt ("one attribution with duration; %d ticks, any redraws, paused at any point", L), np * 6 * nt * nm * (L + 1), [=] (uint64_t i, Rep &rep) {
      Dec d (i); const Prop &pr = (*P)[d.next (np)]; int du = d.next (6); int pause = d.next (L + 1); uint64_t mask = d.next (nm); std::vector<int> ts; for (int k = 0; k < L; k++) ts.push_back (d.next (4));
      S t = adoc (base (&pr)); rep.say (t); rep.nontrivial = du > 1; Play p (t, W0, H0); if (!p.started) { rep.fail ("harness", p.err); return; }
      Shown m = begin (&pr); double e = 0; p.tick (.5); e += .5; if (mask & 1) { if (!judge_anim (p, m, e, "before", rep)) return; }
      if (p.act ("m." + pr.n, Event::START, pr.v1, DU[du]) < 1) { rep.fail ("harness", "attribution refused"); return; }
      int tr0 = 0; assign (m, pr.n, pr.v1, e, DN[du], W0, H0, pr.v0 != "-", tr0, "red");
      if (DN[du] == 0 && !judge_anim (p, m, e, "right after the attribution", rep)) return;
      for (int k = 0; k < L; k++)
        {
          if (pause == k + 1) { p.act ("m@lambda", Event::PAUSE); p.tick (1); if (!judge_anim (p, m, e, "while paused", rep)) return; p.tick (2.5); p.act ("m@lambda", Event::RESUME); }
          p.tick (TK[ts[k]]); e += TK[ts[k]];
          if (k == L - 1 || (mask >> k & 1)) if (!judge_anim (p, m, e, fmt ("%g s after the attribution", e - .5), rep)) return;
        }
      p.tick (2); e += 2; if (!judge_anim (p, m, e, "long after", rep)) return;
      int W = 30, H = 12; p.resize (W, H); Shown r = begin (&pr); assign (r, pr.n, pr.v1, 0, 0, W, H, true, 0, "red");
      auto rescale = [&] (const S &n, int k) { if (pr.n != n && pr.n != "bounds" && pr.n != (k < 2 ? "location" : "size")) return; r.q[k].v = r.q[k].v; }; (void) rescale;
      judge_anim (p, r, e, "after a later resize", rep); },
    [=] (uint64_t i) { Dec d (i); const Prop &pr = (*P)[d.next (np)]; int du = d.next (6); int pause = d.next (L + 1); uint64_t mask = d.next (nm); S s = pr.n + ": " + pr.v0 + " -> " + pr.v1 + " in '" + DU[du] + fmt ("', pause at %d, redraws %llx, ticks", pause, (unsigned long long) mask); for (int k = 0; k < L; k++) s += fmt (" %g", TK[d.next (4)]); return s; } });
  { // 2. interleavings of several attributions, ticks, redraws, resizes, pauses
    struct Op { S what, n, v, du; double d; }; auto O = std::make_shared<std::vector<Op>> (std::vector<Op> {
      { "tick", "", "", "", .5 }, { "tick", "", "", "", 1.25 }, { "draw", "", "", "", 0 }, { "pause", "", "", "", 0 }, { "resume", "", "", "", 0 }, { "restart", "", "", "", 0 }, { "resize", "", "", "", 0 }, { "pausetick", "", "", "", 0 },
      { "set", "left", "12", "1s", 1 }, { "set", "left", "4", "2s", 2 }, { "set", "left", "50%", "", 0 }, { "set", "width", "12", "1s", 1 }, { "set", "transparency", "50%", "1s", 1 }, { "set", "transparency", "0", "", 0 }, { "set", "top", "50%", "0.5s", .5 }, { "set", "height", "2", "", 0 },
      { "set", "bounds", "1,1,10,10", "1s", 1 }, { "set", "bounds", "3,2,5,4", "", 0 }, { "set", "background", "blue", "1s", 1 }, { "set", "background", "lime", "", 0 } });
    uint64_t n = O->size (); int dep = th ? 5 : 4;
    sp.families.push_back ({ fmt ("sequences of %d attributions, ticks, redraws, pauses, resizes and restarts", dep), vf::ipow (n, dep), [=] (uint64_t i, Rep &rep) {
        Dec d (i); std::vector<int> ops; int attr = 0; for (int k = 0; k < dep; k++) { ops.push_back (d.next (n)); if ((*O)[ops.back ()].what == "set") attr++; } if (!attr) return;
        Prop bp = { "bounds", "2,3,6,5", "" };
        S t = adoc (prop ("left", "2") + prop ("top", "3") + prop ("width", "6") + prop ("height", "5") + "<property name='bounds'/>" + prop ("transparency", "0") + prop ("background", "red"));
        rep.say (t); rep.nontrivial = attr > 1; Play p (t, W0, H0); if (!p.started) { rep.fail ("harness", p.err); return; }
        Shown m = begin (nullptr); double e = 0; bool paused = false; std::map<S, S> val = { { "left", "2" }, { "top", "3" }, { "width", "6" }, { "height", "5" } }; S bg = "red", tr = "0";
        bool loose = false, short_ = false, mixed = false; int left = dep;
        auto calm = [&] { for (auto &q : m.q) if (q.run && e - q.t0 < q.d - 1e-9) return false; return true; };
        auto look = [&] (const S &w) { if (loose && !calm ()) return true; return judge_anim (p, m, e, w, rep); };
        for (int o : ops)
          {
            auto &op = (*O)[o]; S what = op.what + (op.n == "" ? S () : " " + op.n + ":=" + op.v + " in '" + op.du + "'"); rep.say (what); left--;
            if (op.what == "tick") { p.tick (op.d); if (!paused) e += op.d; }
            else if (op.what == "pausetick") { p.act ("m@lambda", Event::PAUSE); p.tick (1); if (!paused) p.act ("m@lambda", Event::RESUME); }
            else if (op.what == "pause") { p.act ("m@lambda", Event::PAUSE); paused = true; }
            else if (op.what == "resume") { p.act ("m@lambda", Event::RESUME); paused = false; }
            else if (op.what == "resize") { p.resize (p.w == 24 ? 30 : 24, p.h == 18 ? 12 : 18); bool c = calm (); static const char *A[] = { "left", "top", "width", "height" }; for (int k = 0; k < 4; k++) { m.q[k].v = res (val[A[k]], k % 2 ? p.h : p.w); } if (!c) loose = true; }
            else if (op.what == "restart") { if (mixed) return; /* bounds and left both set: which one counts at the next start is not documented */ p.act ("m@lambda", Event::STOP); p.act ("m@lambda", Event::START); paused = false; e = 0; for (auto &q : m.q) q.run = false; loose = false; }
            else if (op.what == "set")
              {
                if (p.ev ("m." + op.n)->getState () != Event::SLEEPING) return;   // an attribution already running is not started again
                p.act ("m." + op.n, Event::START, op.v, op.du);
                if (op.n == "bounds") short_ = true; else if (short_ && val.count (op.n)) mixed = true;
                if (op.n == "bounds") { S l = op.v + ","; static const char *A[] = { "left", "top", "width", "height" }; for (int k = 0; k < 4; k++) { size_t c = l.find (','); val[A[k]] = l.substr (0, c); l = l.substr (c + 1); } }
                else if (op.n == "transparency") tr = op.v; else if (op.n == "background") bg = op.v; else val[op.n] = op.v;
                if (op.n == "transparency" || op.n == "background")
                  { // colour and transparency multiply: exact only when one of them moves at a time
                    bool busy = m.q[4].run && e - m.q[4].t0 < m.q[4].d - 1e-9; auto &c = COL.at (bg);
                    for (int k = 0; k < 3; k++) { auto &q = m.q[4 + k]; double to = c[k] * alpha (tr); if (busy) { double end = q.t0 + q.d; q.lo = 0; q.hi = 255; q.lin = false; q.from = q.shown (e); q.v = to; q.seen = false; double until = std::max (end, e + op.d); q.t0 = e; q.d = until - e; q.run = q.d > 0; } else q.animate (to, e, op.d, true); }
                  }
                else assign (m, op.n, op.v, e, op.d, p.w, p.h, true, 0, bg);
              }
            if (op.what == "draw" || (op.what == "set" && op.d == 0 && left == 0)) if (!look ("after " + what)) return;
          }
        if (!look ("at the end")) return;
        if (paused) p.act ("m@lambda", Event::RESUME); p.tick (3); e += 3; loose = false; judge_anim (p, m, e, "3 s later", rep); },
      [=] (uint64_t i) { Dec d (i); S s; for (int k = 0; k < dep; k++) { auto &o = (*O)[d.next (n)]; s += o.what + (o.d ? fmt (" %g", o.d) : S ()) + (o.n == "" ? S () : " " + o.n + ":=" + o.v) + "; "; } return s; } });
  }
  { // 3. transitions
    static const V TY = { "fade", "barWipe", "diagonalWipe", "irisWipe", "clockWipe", "" }, SU = { "-", "topToBottom", "leftToRight", "topLeft" }, TD = { "-", "0s", "1s", "2s" }; static const double TN[] = { 0, 0, 1, 2 };
    static const V AT = { "", " startProgress='0.5'", " direction='reverse' fadeColor='blue' horzRepeat='2' vertRepeat='2' borderWidth='1' borderColor='red'" };
    uint64_t n3 = th ? 64 : 16, n8 = th ? 8 : 4;
    auto get = [=] (uint64_t i, S *tn, double *dur, S *tr, S *bg, S *other, int *act, std::vector<int> *ts, uint64_t *mask) {
      Dec d (i); S ty = TY[d.next (6)], su = SU[d.next (4)]; int du = d.next (4); S at = AT[d.next (3)]; *tr = V { "-", "50%", "100%" }[d.next (3)]; *bg = "red"; *other = V { "", "blue" }[d.next (2)]; *act = d.next (4); *mask = th ? d.next (8) : V { "", "a", "aa", "aaaaaaa" }[d.next (4)].size (); uint64_t t = d.next (n3); for (int k = 0; k < 3; k++) { ts->push_back (k == 2 && !th ? 1 : t % 4); t /= 4; }
      *tn = "<transition id='t'" + S (" type='") + (ty == "" ? "slideWipe" : ty) + "'" + (su == "-" ? S () : " subtype='" + su + "'") + (TD[du] == "-" ? S () : " dur='" + TD[du] + "'") + at + "/>"; *dur = TN[du]; };
    sp.families.push_back ({ "transitions at the start of a medium", 6 * 4 * 4 * 3 * 3 * 2 * 4 * n8 * n3, [=] (uint64_t i, Rep &rep) {
        S tn, tr, bg, other; double dur; int act; uint64_t mask; std::vector<int> ts; get (i, &tn, &dur, &tr, &bg, &other, &act, &ts, &mask);
        if (!th && (act != 0) + (tn.find ("Progress") != S::npos || tn.find ("reverse") != S::npos) + (tr != "-") > 1) return;
        S pr = prop ("left", "2") + prop ("top", "3") + prop ("width", "10") + prop ("height", "8") + prop ("background", bg) + optprop ("transparency", tr);
        auto text = [&] (bool with) { return doc ((other != "" ? medium ("u", prop ("left", "0") + prop ("top", "0") + prop ("width", "14") + prop ("height", "9") + prop ("background", other) + prop ("zIndex", "-1")) + "<port id='r' component='u'/>" : S ()) + medium ("m", pr, with ? " descriptor='d'" : "") + "<media id='o'/><port id='p' component='m'/><port id='q' component='o'/>", "<transitionBase>" + tn + "</transitionBase><descriptorBase><descriptor id='d' transIn='t'/></descriptorBase>"); };
        rep.say (text (true)); rep.nontrivial = dur > 0; Play p (text (true), W0, H0), full (text (false), W0, H0); if (!p.started || !full.started) { rep.fail ("harness", p.err + full.err); return; }
        Pic want = full.draw (); full.act ("m@lambda", Event::STOP); Pic none = full.draw (); Pic last; double e = 0; bool attributed = false, plain = tn.find ("Progress") == S::npos && tn.find ("reverse") == S::npos;
        auto look = [&] (const S &w) {
          Pic q = p.draw (); rep.steps++; rep.state (fmt ("%llx", (unsigned long long) vf::hash (S ((char *) q.p.data (), q.p.size () * 4))));
          if (e >= dur - 1e-9) { if (!(q == want)) { int bad = 0; for (size_t k = 0; k < q.p.size (); k++) bad += q.p[k] != want.p[k]; rep.fail ("transition-end", w + fmt (": %d pixels still differ from the fully shown media", bad)); return false; } return true; }
          for (size_t k = 0; k < q.p.size () && !attributed; k++) for (int s = 0; s < 24; s += 8)
            {
              int a = none.p[k] >> s & 255, b = want.p[k] >> s & 255, g = q.p[k] >> s & 255; int x = k % p.w, y = k / p.w; (void) x; (void) y;
              if (g < std::min (a, b) - 4 || g > std::max (a, b) + 4) { rep.fail ("transition-range", w + fmt (": pixel (%d,%d) is neither the media nor what is below it", x, y)); return false; }
              if (plain)
                {
                  double pr = e / dur, u = (x - 2) / 10., u1 = (x - 1) / 10., v = (y - 3) / 8., v1 = (y - 2) / 8.; bool bar = tn.find ("'barWipe'") != S::npos, dia = tn.find ("'diagonalWipe'") != S::npos;
                  int shown = bar || dia ? -1 : 2; // -1: on the edge
                  if (bar) { bool down = tn.find ("'topToBottom'") != S::npos; double lo = down ? v : u, hi = down ? v1 : u1, t = down ? .51 / 8 : .51 / 10; shown = hi <= pr - t ? 1 : lo >= pr + t ? 0 : -1; }
                  if (dia) shown = u1 + v1 <= 2 * pr - .2 ? 1 : u + v >= 2 * pr + .2 ? 0 : -1;
                  if (shown == 1 ? abs (g - b) > 4 : shown == 0 ? abs (g - a) > 4 : shown == 2 ? fabs (g - (a + (b - a) * pr)) > 4 : false) { rep.fail ("transition-share", w + fmt (": pixel (%d,%d) is %02x, %g of the way from %02x to %02x", x, y, g, pr, a, b)); return false; }
                }
              if (last.w) { int l = last.p[k] >> s & 255; if (b >= a ? g < l - 4 : g > l + 4) { rep.fail ("transition-back", w + fmt (": pixel (%d,%d) went back", x, y)); return false; } }
            }
          last = q; return true; };
        if (mask & 1) if (!look ("at the start")) return;
        for (int k = 0; k < 3; k++)
          {
            if (act == 1 && k == 1) { p.act ("m@lambda", Event::PAUSE); p.tick (2.5); if (!look ("while paused")) return; p.act ("m@lambda", Event::RESUME); }
            if (act == 2 && k == 1) { p.act ("m@lambda", Event::STOP); p.tick (.5); p.act ("m@lambda", Event::START); e = 0; last = Pic (); }
            if (act == 3 && k == 1) { p.resize (30, 20); p.resize (W0, H0); }
            p.tick (TK[ts[k]]); e += TK[ts[k]]; if (k == 2 || (mask >> (k + 1) & 1)) if (!look (fmt ("%g s after the start", e))) return;
          }
        p.tick (2.5); e += 2.5; look ("long after"); },
      [=] (uint64_t i) { S tn, tr, bg, other; double dur; int act; uint64_t mask; std::vector<int> ts; get (i, &tn, &dur, &tr, &bg, &other, &act, &ts, &mask); S s = tn + " transparency " + tr + " over '" + other + fmt ("' action %d redraws %llx ticks", act, (unsigned long long) mask); for (int k : ts) s += fmt (" %g", TK[k]); return s; } });
  }
  { // 4. properties that are not animated still take their value
    static const std::vector<Prop> NA = { { "visible", "true", "false" }, { "visible", "false", "true" }, { "zIndex", "0", "5" }, { "zOrder", "0", "5" }, { "fontColor", "red", "blue" }, { "foo", "a", "b" }, { "duration", "10s", "20s" }, { "right", "0", "4" }, { "bottom", "0", "25%" } };
    sp.families.push_back ({ "attribution with duration to properties that are not animated", 9 * 6 * 64 * 8, [=] (uint64_t i, Rep &rep) {
        Dec d (i); const Prop &pr = NA[d.next (9)]; int du = d.next (6); uint64_t t3 = d.next (64), mask = d.next (8);
        bool rt = pr.n == "right" || pr.n == "bottom";
        auto text = [&] (const S &v) { return doc (medium ("m", (rt ? S () : prop ("left", "2") + prop ("top", "3")) + prop ("width", "8") + prop ("height", "6") + prop ("background", "red") + prop (pr.n, v)) + medium ("o", prop ("left", "5") + prop ("top", "1") + prop ("width", "4") + prop ("height", "15") + prop ("background", "blue") + prop ("zIndex", "2")) + "<port id='p' component='m'/><port id='q' component='o'/>"); };
        rep.say (text (pr.v0)); rep.nontrivial = true; Pic want; { Play full (text (pr.v1), W0, H0); if (!full.started) { rep.fail ("harness", full.err); return; } full.tick (1); want = full.draw (); }   // one at a time: the input focus is global
        Play p (text (pr.v0), W0, H0); if (!p.started) { rep.fail ("harness", p.err); return; } if (p.act ("m." + pr.n, Event::START, pr.v1, DU[du]) < 1) { rep.fail ("harness", "refused"); return; }
        double e = 0; for (int k = 0; k < 3; k++) { double s = TK[t3 % 4]; t3 /= 4; p.tick (s); e += s; if (mask >> k & 1) { Pic q = p.draw (); rep.steps++; if (e >= DN[du] && !(q == want)) { rep.fail ("not-applied", fmt ("%g s after the attribution, the picture is not that of the new value", e)); return; } } }
        p.tick (2.5); if (!(p.draw () == want)) rep.fail ("not-applied", "long after the attribution, the picture is not that of the new value"); rep.state (fmt ("%llu", (unsigned long long) i % 60)); },
      [=] (uint64_t i) { Dec d (i); const Prop &pr = NA[d.next (9)]; int du = d.next (6); return pr.n + ": " + pr.v0 + " -> " + pr.v1 + " in '" + DU[du] + "'"; } });
  }
  sp.rule = "every attribution with a duration of the alphabet x tick partition x set of redraws x pause point; every sequence of attributions, ticks, redraws, pauses, resizes and restarts to a depth; every transition; each picture drawn by the real player is compared with linear interpolation at the elapsed playing time";
  sp.assumptions = { "rounding to one pixel or four colour levels; while an animation is interrupted by another of the same property, or by a resize, only its end is judged exactly" };
}

// ------------------------------------------------------------------- C28
static const std::map<S, S> &mimes ()
{
  static const std::map<S, S> m = { { "ac3", "audio/ac3" }, { "avi", "video/x-msvideo" }, { "avif", "image/avif" }, { "bmp", "image/bmp" }, { "bpg", "image/x-bpg" }, { "class", "application/x-ginga-NCLet" }, { "css", "text/css" }, { "gif", "image/gif" }, { "htm", "text/html" }, { "html", "text/html" }, { "heic", "image/heic" }, { "heif", "image/heic" }, { "jpeg", "image/jpeg" }, { "jpg", "image/jpeg" }, { "lua", "application/x-ginga-NCLua" }, { "mov", "video/quicktime" }, { "mp2", "audio/mp2" }, { "mp3", "audio/mp3" }, { "mp4", "video/mp4" }, { "mpa", "audio/mpa" }, { "mpeg", "video/mpeg" }, { "mpg", "video/mpeg" }, { "mpv", "video/mpv" }, { "oga", "audio/ogg" }, { "ogg", "audio/ogg" }, { "ogv", "video/ogg" }, { "opus", "audio/ogg" }, { "png", "image/png" }, { "smil", "application/smil" }, { "spx", "audio/ogg" }, { "srt", "text/srt" }, { "ssml", "application/ssml+xml" }, { "svg", "image/svg+xml" }, { "svgz", "image/svg+xml" }, { "ts", "video/mpeg" }, { "txt", "text/plain" }, { "wav", "audio/basic" }, { "webp", "image/x-webp" }, { "wmv", "video/x-ms-wmv" }, { "xlet", "application/x-ginga-NCLet" }, { "xlt", "application/x-ginga-NCLet" }, { "xml", "text/xml" } };
  return m;
}
static S pre (const S &s, const S &p) { return s.compare (0, p.size (), p) == 0 ? "y" : ""; }
static S kind_of (Player *p)
{
  auto &t = typeid (*p);
  if (t == typeid (PlayerVideo)) return "video"; if (t == typeid (PlayerSigGen)) return "siggen"; if (t == typeid (PlayerImage)) return "image"; if (t == typeid (PlayerText)) return "text"; if (t == typeid (PlayerSvg)) return "svg"; if (t == typeid (PlayerLua)) return "lua"; if (t == typeid (PlayerRemote)) return "remote"; if (t == typeid (Player)) return "timer"; return t.name ();
}
static S kind_for (const S &m)
{
  if (pre (m, "image/svg") != "") return "image|svg"; if (pre (m, "audio/") != "" || pre (m, "video/") != "") return "video"; if (pre (m, "image/") != "") return "image"; if (m == "text/plain") return "text";
  if (m == "application/x-ginga-siggen") return "siggen"; if (m == "application/x-ginga-NCLua") return "lua"; return "timer";
}
static void c28 (Spec &sp)
{
  bool th = vf::thorough ();
  { // 1. type and extension decide the player
    auto T = std::make_shared<V> (V { "", "application/x-ginga-timer", "application/x-ginga-siggen", "application/x-ginga-NCLua", "application/x-ginga-NCLet", "text/plain", "text/html", "text/css", "text/xml", "text/srt", "image/png", "image/gif", "image/unheard-of", "video/mp4", "video/unheard-of", "audio/mp3", "audio/basic", "application/smil", "foo/bar", "nonsense", "texts/plain", "TEXT/PLAIN" });
    auto E = std::make_shared<V> (V { "", "/", "noext", "trailing.", ".", "unknown.zzz", "double.png.zzz" });
    for (auto &m : mimes ()) { E->push_back ("x." + m.first); E->push_back ("dir.d/y.tar." + m.first); E->push_back ("http://h/" + m.first); E->push_back ("x." + m.first + "q"); if (m.first.size () > 2) E->push_back ("x." + m.first.substr (0, m.first.size () - 1)); }
    uint64_t nt = T->size (), ne = E->size ();
    sp.families.push_back ({ "declared type x content extension", nt * ne * 3, [=] (uint64_t i, Rep &rep) {
        Dec d (i); S ty = (*T)[d.next (nt)], uri = (*E)[d.next (ne)]; int how = d.next (3);   // 0: media has neither, 1: media declares both, 2: only the type
        S mime = ty; if (mime == "") { size_t k = uri.rfind ('.'); if (k != S::npos && k + 1 < uri.size ()) { auto it = mimes ().find (uri.substr (k + 1)); if (it != mimes ().end ()) mime = it->second; } } if (mime == "") mime = "application/x-ginga-timer";
        if (uri.find ("http:") == 0 && uri.find ('.') == S::npos) mime = ty == "" ? "application/x-ginga-timer" : ty;
        Play p (doc ("<media id='m'/><media id='o'/><port id='q' component='o'/>"), 8, 8); if (!p.started) { rep.fail ("harness", p.err); return; }
        Media *m = cast (Media *, p.doc ()->getObjectById ("m")); rep.nontrivial = true; rep.steps++;
        if (how >= 1 && ty != "") m->setProperty ("type", ty); if (how == 1 && uri != "") m->setProperty ("uri", uri);
        Player *pl = Player::createPlayer (p.f, m, uri, ty); S k = kind_of (pl), w = kind_for (mime), t = m->getProperty ("type"); delete pl; rep.state (k + t);
        if (("|" + w + "|").find ("|" + k + "|") == S::npos) rep.fail ("kind", "type '" + ty + "', content '" + uri + "': the player is of kind " + k + ", expected " + w);
        else if (t != mime) rep.fail ("type", "type '" + ty + "', content '" + uri + "': the media's type is '" + t + "', expected '" + mime + "'"); },
      [=] (uint64_t i) { Dec d (i); S a = (*T)[d.next (nt)], b = (*E)[d.next (ne)]; return "type '" + a + "' content '" + b + "'"; } });
    // played from a document: kinds that need no content
    auto D = std::make_shared<std::vector<std::pair<S, S>>> ();
    for (S t : { "-", "application/x-ginga-timer", "text/html", "application/smil", "foo/bar", "nonsense", "application/x-ginga-NCLet", "text/css" }) for (S u : { "-", "x.zzz", "x", "x.html", "x.smil", "x.css", "x.class", "x.xml", "x.ssml", "x.srt" }) D->push_back ({ t, u });
    uint64_t nd = D->size ();
    sp.families.push_back ({ "media without a specific player last for their duration", nd * 3 * 4, [=] (uint64_t i, Rep &rep) {
        Dec d (i); auto &x = (*D)[d.next (nd)]; S dur = V { "-", "1s", "2s" }[d.next (3)]; int k = d.next (4);
        S t = doc (medium ("m", optprop ("explicitDur", dur) + prop ("background", "red"), (x.first == "-" ? S () : " type='" + x.first + "'") + (x.second == "-" ? S () : " src='" + x.second + "'")) + "<media id='o'/><port id='p' component='m'/><port id='q' component='o'/>");
        rep.say (t); rep.nontrivial = true; Play p (t, 6, 6); if (!p.started) { rep.fail ("harness", p.err); return; } double e = 0; double D_ = dur == "-" ? 1e9 : num (dur);
        for (int n = 0; n < 5; n++) { double s = TK[(k + n) % 4]; p.tick (s); e += s; Event *ev = p.ev ("m@lambda"); bool on = ev && ev->getState () == Event::OCCURRING; rep.steps++; if (fabs (e - D_) > 1e-9 && on != (e < D_)) { rep.fail ("lasts", fmt ("%g s after its start the media %s", e, on ? "still plays" : "has ended")); return; }
          S w = only (p.draw (), { 0, 0, on ? 6 : 0, 6 }, 0xff0000); if (w != "") { rep.fail ("lasts", w); return; } if (!on) break; } rep.state (t); },
      [=] (uint64_t i) { Dec d (i); auto &x = (*D)[d.next (nd)]; return "type " + x.first + " src " + x.second; } });
  }
  { // 2. set from the start, at run time before or after playing, by alias: all the same
    static const std::vector<std::pair<S, V>> PV = {
      { "background", { "red", "#123456", "" } }, { "left", { "0", "4", "25%", "" } }, { "top", { "0", "3", "50%", "" } }, { "width", { "5", "50%", "0", "" } }, { "height", { "5", "50%", "" } }, { "transparency", { "0", "50%", "100%", "128", "" } }, { "visible", { "true", "false", "" } }, { "zIndex", { "0", "3", "-1", "" } }, { "zOrder", { "0", "2", "-1", "" } },
      { "duration", { "1s", "2s", "3", "00:00:01", "" } }, { "debug", { "false", "" } }, { "focusIndex", { "", "7" } }, { "focusBorderColor", { "blue", "" } }, { "fontColor", { "red", "" } }, { "bounds", { "1,2,3,4", "25%,25%,50%,50%" } }, { "location", { "2,3", "50%,0" } }, { "size", { "4,3", "25%,50%" } }, { "right", { "2", "25%" } }, { "bottom", { "2", "25%" } },
      { "fontSize", { "9", "14", "" } }, { "fontWeight", { "bold" } }, { "fontStyle", { "italic" } }, { "fontBgColor", { "yellow" } }, { "horzAlign", { "right", "center", "" } }, { "vertAlign", { "bottom", "middle" } }, { "antialias", { "none" } } };
    static const std::map<S, S> AL = { { "background", "backgroundColor" }, { "duration", "explicitDur" } };
    auto X = std::make_shared<std::vector<std::pair<S, S>>> (); for (auto &x : PV) for (auto &v : x.second) X->push_back ({ x.first, v }); uint64_t nx = X->size ();
    // how a value gets there
    static const V HOW = { "document", "before start", "right after start", "during play", "set twice", "stop, set, start", "alias in document", "alias at run time", "other value first, in document" };
    sp.families.push_back ({ "a property's effect does not depend on when or how it is set", nx * 9 * 2 * nx, [=] (uint64_t i, Rep &rep) {
        Dec d (i); auto x = (*X)[d.next (nx)]; int how = d.next (9); bool txt = d.next (2); const S src = txt ? " src='h.txt'" : ""; const int W = txt ? 30 : 12, H = txt ? 24 : 10; static bool made = false; if (!made) vf::write_file (Play::dir () + "/h.txt", "Ab\nc d"); made = true;
        if (!txt && (x.first.compare (0, 4, "font") == 0 || x.first == "horzAlign" || x.first == "vertAlign" || x.first == "antialias") && x.first != "fontColor") return;
        auto y = (*X)[d.next (nx)];
        if (x.first == y.first) return;
        auto grp = [] (const S &n) { return n == "bounds" || n == "location" || n == "size" || n == "left" || n == "right" || n == "top" || n == "bottom" || n == "width" || n == "height"; };
        if (grp (x.first) && grp (y.first)) { bool sl = x.first.size () > 4 && (x.first == "bounds" || x.first == "location"); (void) sl; static const V s4 = { "left", "top", "width", "height" }; bool a = std::find (s4.begin (), s4.end (), x.first) != s4.end (), b = std::find (s4.begin (), s4.end (), y.first) != s4.end (); if (!a || !b) return; }
        if (how == 8 && (x.first == "bounds" || x.first == "location" || x.first == "size" || x.first == "right" || x.first == "bottom")) return;
        if ((how == 6 || how == 7) && !AL.count (x.first)) return;
        bool isdur = x.first == "duration" || y.first == "duration"; if (x.first == "duration" && how == 3) return;   // a duration counts from the start
        S o1 = "<media id='o'/><port id='q' component='o'/>" + medium ("b", prop ("left", "3") + prop ("top", "3") + prop ("width", "6") + prop ("height", "6") + prop ("background", "blue") + prop ("zIndex", "1")) + "<port id='r' component='b'/>";
        S fix = (x.first == "background" || y.first == "background" ? S () : prop ("background", "red")) + (txt && x.first != "fontSize" ? prop ("fontSize", "8") : S ()) + prop (y.first, y.second);
        static const std::map<S, S> OTHER = { { "background", "lime" }, { "left", "9" }, { "top", "9" }, { "width", "9" }, { "height", "9" }, { "transparency", "30%" }, { "visible", "false" }, { "zIndex", "9" }, { "zOrder", "9" }, { "duration", "9s" }, { "debug", "false" }, { "focusIndex", "3" }, { "focusBorderColor", "lime" }, { "fontColor", "lime" }, { "fontSize", "11" }, { "fontWeight", "" }, { "fontStyle", "" }, { "fontBgColor", "lime" }, { "horzAlign", "center" }, { "vertAlign", "top" }, { "antialias", "" } };
        S al = AL.count (x.first) ? AL.at (x.first) : x.first;
        S pa = "<property name='" + x.first + "'/>";
        S ref = doc (o1 + medium ("m", fix + (x.second == "" ? S () : prop (x.first, x.second)), src) + "<port id='p' component='m'/>");
        S mine = doc (o1 + medium ("m", fix + (how == 0 ? (x.second == "" ? pa : prop (x.first, x.second)) : how == 6 ? prop (al, x.second) : how == 8 ? prop (x.first, OTHER.at (x.first)) : how == 7 ? S () : S ()), src) + (how == 1 ? S () : S ("<port id='p' component='m'/>")));
        rep.say (ref); rep.say (mine); rep.nontrivial = x.second != ""; Play a (ref, W, H), b (mine, W, H); if (!a.started || !b.started) { rep.fail ("harness", a.err + b.err); return; }
        Media *m = cast (Media *, b.doc ()->getObjectById ("m")); auto set = [&] (const S &v) { m->setProperty (how == 7 ? al : x.first, v); };
        if (how == 1) { set (x.second); b.act ("m@lambda", Event::START); }
        if (how == 2 || how == 7 || how == 8) set (x.second);
        if (how == 4) { set (OTHER.count (x.first) ? OTHER.at (x.first) : x.second); set (x.second); }
        if (how == 5) { b.act ("m@lambda", Event::STOP); set (x.second); b.act ("m@lambda", Event::START); }
        if (how == 3) { a.tick (.5); b.tick (.5); set (x.second); }
        if (how == 0 && (x.first == "bounds" || x.first == "location" || x.first == "size" || x.first == "right" || x.first == "bottom") && x.second == "") return;
        for (int n = 0; n < 4; n++)
          {
            auto on = [&] (Play &p) { Event *e = p.ev ("m@lambda"); return e && e->getState () == Event::OCCURRING; };
            rep.steps++; if (on (a) != on (b)) { rep.fail ("how-set-duration", fmt ("after %d steps the media plays: %d when the value is given in the document, %d when set by '%s'", n, on (a), on (b), HOW[how].c_str ())); return; }
            Pic p = a.draw (), q = b.draw (); if (!(p == q)) { rep.fail ("how-set", fmt ("after %d steps: the picture with the value given in the document differs from that when set by '%s'", n, HOW[how].c_str ())); return; }
            if (n == 1) { a.resize (txt ? 40 : 20, txt ? 34 : 16); b.resize (txt ? 40 : 20, txt ? 34 : 16); } double s = n == 0 ? .25 : n == 1 ? 1 : 1.25; a.tick (s); b.tick (s);
          } (void) isdur; rep.state (fmt ("%llu", (unsigned long long) i)); },
      [=] (uint64_t i) { Dec d (i); auto x = (*X)[d.next (nx)]; int how = d.next (9); return x.first + "='" + x.second + "' " + HOW[how] + (d.next (2) ? ", on a text" : ""); } });
  }
  sp.rule = "every declared type x file extension, on the real player factory; every property value x way of setting it x a second property: the real player's pictures and life-time must equal those of the same value declared in the document";
  sp.assumptions = { "image/svg may use either the image or the SVG player; NCL documents as media are refused by design; an empty value of right, bottom, bounds, location and size has no documented meaning" };
}
