// C22: readers of attribute literals.  C23: path, URI and string helpers.
// Every string up to a length over an alphabet (and structured grids) is given
// to the real function and to an independent reading of the same grammar.
#include "aux-ginga.h"
#include "vf.h"
#include <cmath>
#include <cstring>
#include <memory>
#include <unistd.h>
#include <sys/stat.h>
using vf::fmt; using vf::Rep; using vf::Spec; using vf::Dec;
typedef std::string S; typedef std::vector<S> V;
static const bool TH = vf::thorough ();
static unsigned CUT = 0; // the memory check takes shorter strings

static S quote (const S &s) { S r = "\""; for (unsigned char c : s) r += c < 32 || c > 126 ? fmt ("\\x%02x", c) : S (1, c); return r + "\""; }
// all strings over an alphabet with length <= n, in length order
static uint64_t nstr (const S &a, unsigned n) { uint64_t t = 0; for (unsigned i = 0; i <= n; i++) t += vf::ipow (a.size (), i); return t; }
static S str (const S &a, uint64_t i)
{
  unsigned n = 0; while (i >= vf::ipow (a.size (), n)) i -= vf::ipow (a.size (), n++);
  S s; while (n--) { s += a[i % a.size ()]; i /= a.size (); } return s;
}
struct Fam { S name; uint64_t n; std::function<S (uint64_t)> mk; std::function<void (const S &, Rep &)> f; };
static void add (Spec &sp, const Fam &fa)
{
  auto p = std::make_shared<Fam> (fa);
  vf::Family f; f.name = fa.name; f.n = fa.n;
  f.exec = [p] (uint64_t i, Rep &r) { S s = p->mk (i); r.say (p->name + ": " + quote (s)); r.steps++; p->f (s, r); };
  f.describe = [p] (uint64_t i) { return p->name + ": " + quote (p->mk (i)); };
  sp.families.push_back (f);
}
static void strings (Spec &sp, const S &name, const S &alpha, unsigned len, std::function<void (const S &, Rep &)> f)
{ len -= CUT; add (sp, { name + fmt (", all strings of length <= %u over %s", len, quote (alpha).c_str ()), nstr (alpha, len), [alpha] (uint64_t i) { return str (alpha, i); }, f }); }
static void listed (Spec &sp, const S &name, const V &v, std::function<void (const S &, Rep &)> f)
{ auto p = std::make_shared<V> (v); add (sp, { name, v.size (), [p] (uint64_t i) { return (*p)[i]; }, f }); }
static V cross (const V &a, const V &b) { V r; for (auto &x : a) for (auto &y : b) r.push_back (x + y); return r; }
static bool sp_ (char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static S strip (const S &s) { size_t a = 0, b = s.size (); while (a < b && sp_ (s[a])) a++; while (b > a && sp_ (s[b - 1])) b--; return s.substr (a, b - a); }
// fields ended by the separator; what follows the last one counts if non-empty
static V split (const S &s, char c) { V r; S cur; for (char x : s) if (x == c) { r.push_back (cur); cur = ""; } else cur += x; if (cur != "") r.push_back (cur); return r; }
static bool dig (char c) { return c >= '0' && c <= '9'; }
// decimal number without sign at p: digits with at most one point, at least one digit
static size_t udec (const S &s, size_t p)
{
  size_t q = p; bool d = false;
  while (q < s.size () && dig (s[q])) { q++; d = true; }
  if (q < s.size () && s[q] == '.') { size_t t = q + 1; bool e = false; while (t < s.size () && dig (s[t])) { t++; e = true; } if (d || e) { q = t; d = true; } }
  return d ? q : p;
}
static long double ldec (const S &s) { return s == "." ? 0 : strtold (s.c_str (), nullptr); }
// longest numeric prefix, as in C: spaces, sign, decimal, exponent.  wild: hex/inf/nan, not judged
static bool num (const S &s, size_t *end, long double *v, bool *wild)
{
  size_t p = 0; *wild = false; while (p < s.size () && sp_ (s[p])) p++;
  size_t b = p; bool neg = p < s.size () && s[p] == '-'; if (p < s.size () && (s[p] == '-' || s[p] == '+')) p++;
  if (p < s.size () && strchr ("iInN", s[p])) *wild = true;
  if (p + 1 < s.size () && s[p] == '0' && (s[p + 1] == 'x' || s[p + 1] == 'X')) *wild = true;
  size_t q = udec (s, p); if (q == p) { *end = 0; *v = 0; return false; }
  size_t e = q;
  if (e < s.size () && (s[e] == 'e' || s[e] == 'E'))
    { size_t t = e + 1; if (t < s.size () && (s[t] == '-' || s[t] == '+')) t++; if (t < s.size () && dig (s[t])) { while (t < s.size () && dig (s[t])) t++; q = t; } }
  (void) b; *end = q; *v = strtold (s.substr (p, q - p).c_str (), nullptr); if (neg) *v = -*v; return true;
}

// ------------------------------------------------------------------- C22
static void t_bool (const S &s, Rep &r)
{
  S l; for (char c : s) l += tolower (c);
  int want = l == "true" ? 1 : l == "false" ? 0 : -1;
  bool v = true, w = false;
  bool a = ginga::try_parse_bool (s, &v), b = ginga::try_parse_bool (s, &w);
  if (a != (want >= 0) || a != b) r.fail ("bool", quote (s) + (a ? " accepted" : " rejected") + " as boolean");
  else if (a && (v != (want == 1) || w != v)) r.fail ("bool", quote (s) + " read as the wrong boolean");
  else if (!a && (!v || w)) r.fail ("bool", "rejecting " + quote (s) + " stored a result");
  if (a != ginga::try_parse_bool (s, nullptr)) r.fail ("bool", "null result pointer");
  if (a && ginga::parse_bool (s) != v) r.fail ("bool", "parse_bool disagrees");
  r.nontrivial = a; if (a) r.state (fmt ("b%d", v));
}
static void t_time (const S &s, Rep &r)
{
  S t = strip (s); bool ok = false; long double v = 0; bool dc = false;
  if (t == "") ok = true;
  else
    {
      size_t p = udec (t, 0);
      if (p > 0 && (p == t.size () || (p + 1 == t.size () && t[p] == 's'))) { ok = true; v = ldec (t.substr (0, p)); }
      else if (p > 0 && t[p] == ':')
        {
          size_t q = udec (t, p + 1);
          if (q > p + 1 && q < t.size () && t[q] == ':')
            {
              size_t e = udec (t, q + 1);
              if (e > q + 1 && e == t.size ()) { ok = true; v = 3600 * ldec (t.substr (0, p)) + 60 * ldec (t.substr (p + 1, q - p - 1)) + ldec (t.substr (q + 1)); }
            }
        }
      if (t.find_first_of ("eExX") != S::npos) dc = true;
    }
  if (v * 1e9L >= 18446744073709551615.0L) { if (v * 1e9L < 18446744073709551615.0L * (1 + 1e-12L)) dc = true; ok = false; }
  else if (v * 1e9L > 18446744073709551615.0L * (1 - 1e-12L)) dc = true;
  Time x = 12345; bool a = ginga::try_parse_time (s, &x);
  if (dc) return;
  if (a != ok) { r.fail ("time", quote (s) + (a ? " accepted" : " rejected") + " as time"); return; }
  if (a != ginga::try_parse_time (s, nullptr)) r.fail ("time", "null result pointer");
  if (!a && x != 12345) r.fail ("time", "rejecting " + quote (s) + " stored a result");
  if (a)
    {
      long double w = v * 1e9L;
      if (fabsl ((long double) x - w) > 1 + w * 1e-15L) r.fail ("time", quote (s) + fmt (" read as %llu ns", (unsigned long long) x));
      if (ginga::parse_time (s) != x) r.fail ("time", "parse_time disagrees");
      r.nontrivial = true; r.state (fmt ("t%llu", (unsigned long long) x));
    }
}
static void t_percent (const S &s, Rep &r)
{
  size_t e; long double v; bool wild; num (s, &e, &v, &wild);
  if (wild || (e == 0 && s[0] == '%')) { ginga::parse_percent (s, 100, 0, 255); return; }
  bool pc = e > 0 && e < s.size () && s[e] == '%';
  static const struct { int base, min, max; } B[] = { { 100, 0, 255 }, { 200, -50, 50 }, { 0, 0, 10 }, { 1920, G_MININT, G_MAXINT }, { -30, -1000, 1000 }, { 255, 0, 255 } };
  for (auto &b : B)
    {
      long double w = pc ? v / 100 * b.base : v;
      auto cl = [&] (long double z) { return z > b.max ? (long long) b.max : z < b.min ? (long long) b.min : (long long) z; };
      long long lo = cl (roundl (w)), hi = lo;
      if (fabsl (fabsl (w - truncl (w)) - 0.5L) < 1e-7L) { lo = cl (floorl (w)); hi = cl (ceill (w)); if (!pc) lo = hi = cl (roundl (w)); }
      int x = ginga::parse_percent (s, b.base, b.min, b.max);
      if (x < lo || x > hi) { r.fail ("percent", quote (s) + fmt (" with base %d in [%d,%d] read as %d, expected %lld", b.base, b.min, b.max, x, lo)); return; }
    }
  long double w = pc ? v / 100 * 255 : v; int x = ginga::parse_pixel (s);
  long double cw = w > 255 ? 255 : w < 0 ? 0 : w;
  if (fabsl (x - cw) > 0.5000001L) r.fail ("pixel", quote (s) + fmt (" read as pixel value %d", x));
  r.nontrivial = e > 0; r.state (fmt ("p%.12Lg%d", v, pc));
}
static void t_number (const S &s, Rep &r)
{
  size_t e; long double v; bool wild; bool ok = num (s, &e, &v, &wild);
  double d = 777;
  bool a = ::_xstrtod (s, &d);
  if (!wild)
    {
      if (a != ok) { r.fail ("double", quote (s) + (a ? " accepted" : " rejected") + " as number"); return; }
      if (!a && d != 777) r.fail ("double", "rejecting " + quote (s) + " stored a result");
      if (a && !(d == (double) v)) r.fail ("double", quote (s) + fmt (" read as %.17g", d));
      if (a && xstrtod (s) != d) r.fail ("double", "xstrtod disagrees");
      bool pc = e > 0 && e < s.size () && s[e] == '%', p = !pc;
      if (xstrispercent (s) != pc) r.fail ("ispercent", quote (s) + (pc ? " not" : "") + " taken for a percentage");
      if (s[0] != '%')
        {
          double x = xstrtodorpercent (s, &p); long double w = pc ? v / 100 : v;
          if (p != pc || (std::isinf (x) ? fabsl (w) < 1e308L : fabsl (x - w) > fabsl (w) * 1e-15L)) r.fail ("orpercent", quote (s) + fmt (" read as %.17g%s", x, p ? " (percentage)" : ""));
        }
    }
  // integers
  for (unsigned base : { 10, 16 })
    {
      size_t p = 0; while (p < s.size () && sp_ (s[p])) p++;
      bool neg = p < s.size () && s[p] == '-'; if (p < s.size () && (s[p] == '-' || s[p] == '+')) p++;
      auto val = [&] (char c) { int x = dig (c) ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; return x < (int) base ? x : -1; };
      if (base == 16 && p + 2 < s.size () + 0 && s[p] == '0' && (s[p + 1] | 32) == 'x' && val (s[p + 2]) >= 0) p += 2;
      bool any = false, over = false; unsigned __int128 n = 0;
      while (p < s.size () && val (s[p]) >= 0) { n = n * base + val (s[p]); any = true; if (n > ((unsigned __int128) 1 << 70)) { over = true; n = (unsigned __int128) 1 << 70; } p++; }
      (void) over;
      __int128 sv = neg ? -(__int128) n : (__int128) n;
      auto cl = [&] (__int128 lo, __int128 hi) { return sv < lo ? lo : sv > hi ? hi : sv; };
      gint64 i = 777; guint64 u = 777;
      if (::_xstrtoll (s, &i, base) != any) { r.fail ("integer", quote (s) + fmt (" %s as integer in base %u", any ? "rejected" : "accepted", base)); return; }
      if (::_xstrtoull (s, &u, base) != any) { r.fail ("unsigned", quote (s) + fmt (" %s as unsigned integer in base %u", any ? "rejected" : "accepted", base)); return; }
      if (!any) { if (i != 777 || u != 777) r.fail ("integer", "rejecting " + quote (s) + " stored a result"); continue; }
      if (i != (gint64) cl (G_MININT64, G_MAXINT64)) r.fail ("integer", quote (s) + fmt (" read as %lld in base %u", (long long) i, base));
      if (xstrtoint (s, base) != (gint) cl (G_MININT, G_MAXINT) || xstrtoint8 (s, base) != (gint8) cl (G_MININT8, G_MAXINT8) || xstrtoint64 (s, base) != (gint64) cl (G_MININT64, G_MAXINT64))
        r.fail ("integer", quote (s) + fmt (" not clamped right in base %u", base));
      if (!neg)
        {
          if (u != (guint64) cl (0, (__int128) G_MAXUINT64)) r.fail ("unsigned", quote (s) + fmt (" read as %llu in base %u", (unsigned long long) u, base));
          if (xstrtouint (s, base) != (guint) cl (0, G_MAXUINT) || xstrtouint8 (s, base) != (guint8) cl (0, G_MAXUINT8) || xstrtouint64 (s, base) != (guint64) cl (0, (__int128) G_MAXUINT64))
            r.fail ("unsigned", quote (s) + fmt (" not clamped right in base %u", base));
        }
      r.nontrivial = true; r.state (fmt ("i%u:%lld", base, (long long) i));
    }
}
static void t_list (const S &s, Rep &r)
{
  for (char sep : { ',', ';' })
    {
      V want = split (s, sep); for (auto &x : want) x = strip (x);
      for (size_t lo = 0; lo < 4; lo++)
        for (size_t hi : { lo, lo + 1, lo + 7 })
          {
            bool ok = want.size () >= lo && want.size () <= hi;
            std::list<S> l; bool a = ginga::try_parse_list (s, sep, lo, hi, &l);
            if (a != ok || a != ginga::try_parse_list (s, sep, lo, hi, nullptr)) { r.fail ("list", quote (s) + fmt (" %s as a list of %zu to %zu items", a ? "accepted" : "rejected", lo, hi)); return; }
            if (a ? V (l.begin (), l.end ()) != want : !l.empty ()) { r.fail ("list", quote (s) + " split into the wrong items"); return; }
            if (a && ginga::parse_list (s, sep, lo, hi) != l) r.fail ("list", "parse_list disagrees");
            r.nontrivial |= a && l.size () > 1;
            if (a) { S c = "l"; for (auto &x : l) c += x + "|"; r.state (c); }
          }
      auto x = xstrsplit (s, sep);
      if (V (x.begin (), x.end ()) != split (s, sep)) r.fail ("split", quote (s) + " split into the wrong pieces");
    }
  if (xstrstrip (s) != strip (s)) r.fail ("strip", quote (s) + " stripped to " + quote (xstrstrip (s)));
}
static void t_table (const S &s, Rep &r)
{
  S t = strip (s); std::map<S, S> want; bool ok = t.size () >= 2 && t[0] == '{' && t[t.size () - 1] == '}', dc = false;
  if (ok)
    for (auto &it : split (t.substr (1, t.size () - 2), ','))
      {
        if (strip (it) == "") dc = true; // blank items
        V kv = split (it, '=');
        if (kv.size () != 2) { ok = false; continue; }
        S k = strip (kv[0]), v = strip (kv[1]);
        if (v.size () < 2 || (v[0] != '\'' && v[0] != '"') || v[v.size () - 1] != v[0]) { ok = false; continue; }
        S in = v.substr (1, v.size () - 2);
        if (in.find (v[0]) != S::npos || k == "" || k.find_first_of ("{}'\"") != S::npos) dc = true; // quoting inside values, odd keys: unspecified
        want[k] = in;
      }
  std::map<S, S> m; m["zz"] = "zz"; bool a = ginga::try_parse_table (s, &m);
  if (a != ginga::try_parse_table (s, nullptr)) r.fail ("table", "null result pointer");
  if (dc) return;
  if (a != ok) { r.fail ("table", quote (s) + (a ? " accepted" : " rejected") + " as table"); return; }
  if (!a && (m.size () != 1 || !m.count ("zz"))) r.fail ("table", "rejecting " + quote (s) + " stored a result");
  if (a && m != want) r.fail ("table", quote (s) + " read as a different table");
  if (a && ginga::parse_table (s) != m) r.fail ("table", "parse_table disagrees");
  r.nontrivial = a && m.size ();
  if (a) { S c = "m"; for (auto &x : m) c += x.first + "=" + x.second + "|"; r.state (c); }
}
static void t_hexcolor (const S &s, Rep &r)
{
  Color c = { 9, 9, 9, 9 }; bool a = ginga::try_parse_color (s, &c);
  S h = s.substr (1); unsigned k = h.size () / 3; bool ok = h.size () % 3 == 0 && k >= 1 && k <= 4 && h.find_first_not_of ("0123456789abcdefABCDEF") == S::npos;
  if (h.size () == 4 || h.size () == 8) return; // with alpha: left to the toolkit
  if (a != ok) { r.fail ("color", quote (s) + (a ? " accepted" : " rejected") + " as colour"); return; }
  if (!a) return;
  double v[3], m = std::pow (16, k) - 1; for (int i = 0; i < 3; i++) v[i] = strtol (h.substr (i * k, k).c_str (), nullptr, 16) / m;
  if (fabs (c.red - v[0]) > 1e-3 || fabs (c.green - v[1]) > 1e-3 || fabs (c.blue - v[2]) > 1e-3 || c.alpha != 1) r.fail ("color", quote (s) + fmt (" read as %g,%g,%g,%g", c.red, c.green, c.blue, c.alpha));
  Color d = ginga::parse_color (s); if (memcmp (&c, &d, sizeof c)) r.fail ("color", "parse_color disagrees");
  r.nontrivial = true;
}
static void t_color (const S &s, Rep &r)
{
  static const std::map<S, std::vector<int>> names{ { "black", { 0, 0, 0 } }, { "white", { 255, 255, 255 } }, { "red", { 255, 0, 0 } }, { "blue", { 0, 0, 255 } }, { "yellow", { 255, 255, 0 } }, { "cyan", { 0, 255, 255 } }, { "magenta", { 255, 0, 255 } } };
  Color c = { 9, 9, 9, 9 }; bool a = ginga::try_parse_color (s, &c);
  S l; for (char x : s) l += tolower (x);
  if (s == "") { if (!a || c.red || c.green || c.blue || c.alpha) r.fail ("color", "no colour is not transparent"); return; }
  auto it = names.find (l);
  if (it != names.end () && l == s)
    {
      if (!a || c.red * 255 != it->second[0] || c.green * 255 != it->second[1] || c.blue * 255 != it->second[2] || c.alpha != 1) r.fail ("color", quote (s) + " misread");
      r.nontrivial = true;
    }
  else if (it == names.end () && a) r.fail ("color", quote (s) + " accepted as colour");
}
static const char *CV[] = { "0", "255", "128", "300", "-5", "50%", "100%", "0%", "200%", "1.5", "", "x" };
static const char *AV[] = { "", "0", ".5", "1", "2", "-1", "x", "100%" };
static S rgbs (uint64_t i) { Dec d (i); S a = CV[d.next (12)], b = CV[d.next (12)], c = CV[d.next (12)]; unsigned al = d.next (8), sh = d.next (3);
  S com = sh == 1 ? " , " : ","; S r = S (al ? "rgba(" : "rgb(") + a + com + b + com + c; if (al) r += com + AV[al]; return r + (sh == 2 ? "" : ")"); }
static void t_rgb (const S &s, Rep &r)
{
  Color c = { 9, 9, 9, 9 }; bool a = ginga::try_parse_color (s, &c);
  bool al = s[3] == 'a', ok = s[s.size () - 1] == ')', dc = false; V f = split (s.substr (al ? 5 : 4, s.size () - (al ? 5 : 4) - ok), ',');
  double v[4] = { 0, 0, 0, 1 };
  for (unsigned i = 0; i < (al ? 4u : 3u); i++)
    {
      S t = i < f.size () ? strip (f[i]) : S (); size_t e; long double n; bool w;
      if (!num (t, &e, &n, &w)) { ok = false; continue; }
      if (i == 3) { if (e != t.size ()) dc = true; v[3] = n; }
      else if (t[t.size () - 1] == '%') v[i] = n / 100;
      else { v[i] = n / 255; if (n != (int) n) dc = true; }
      v[i] = v[i] < 0 ? 0 : v[i] > 1 ? 1 : v[i];
    }
  if (dc) return;
  if (a != ok) { r.fail ("color", quote (s) + (a ? " accepted" : " rejected") + " as colour"); return; }
  if (a && (fabs (c.red - v[0]) + fabs (c.green - v[1]) + fabs (c.blue - v[2]) + fabs (c.alpha - v[3]) > 1e-6)) r.fail ("color", quote (s) + fmt (" read as %g,%g,%g,%g", c.red, c.green, c.blue, c.alpha));
  r.nontrivial = a; if (a) r.state (fmt ("c%g,%g,%g,%g", c.red, c.green, c.blue, c.alpha));
}
static void c22 (Spec &sp)
{
  strings (sp, "boolean", "truefals1 ", TH ? 6 : 5, t_bool);
  { V v; for (S w : { "true", "false" }) for (unsigned m = 0; m < 1u << w.size (); m++) { S s = w; for (unsigned k = 0; k < s.size (); k++) if (m >> k & 1) s[k] = toupper (s[k]);
        v.push_back (s); for (size_t p = 0; p <= s.size (); p++) for (char c : S (" eEt\t.x")) { S t = s; t.insert (p, 1, c); v.push_back (t); } for (size_t p = 0; p < s.size (); p++) { S t = s; t.erase (p, 1); v.push_back (t); } }
    listed (sp, "boolean, all cases and single edits", v, t_bool); }
  strings (sp, "time", "019.:s- ", TH ? 8 : 7, t_time);
  strings (sp, "time with junk", "05.:s+\tx\n", TH ? 7 : 5, t_time);
  { V c{ "", "0", "00", "1", "01", "59", "60", "99", "1.5", ".5", "5.", ".", "-1", "x", "1 ", " 1", "100000" }, v;
    for (auto &h : c) for (auto &m : c) for (auto &s : c) for (S suf : { "", "s" }) for (S pre : { "", " " }) v.push_back (pre + h + ":" + m + ":" + s + suf);
    for (auto &h : c) for (auto &m : c) { v.push_back (h + ":" + m); v.push_back (h + ":" + m + ":1:1"); }
    V big{ "18446744073", "18446744073.709551615", "18446744074", "18446744073.8", "99999999999999999999", "1000000000000000000000000000000", "0.000000001", "0.0000000001", "0.999999999", "1.000000001", "86399.999", "3.6e3" };
    for (auto &b : big) for (S suf : { "", "s", " s", "ss", "S", "ms" }) v.push_back (b + suf);
    for (auto &b : big) { v.push_back (b + ":0:0"); v.push_back ("0:" + b + ":0"); v.push_back ("0:0:" + b); }
    v.push_back (S (400, '9')); v.push_back (S (100000, '0') + "1s"); v.push_back (S (100000, ' ') + "1");
    listed (sp, "time, structured", v, t_time); }
  strings (sp, "percentage", "019.%-+ x", TH ? 7 : 6, t_percent);
  { V n{ "0", "0.4", "0.5", "0.6", "1.5", "2.5", "49.5", "50", "127.5", "254.49", "254.5", "255", "255.5", "256", "1000", "2147483646.5", "2147483647", "2147483648", "4294967295", "4294967296", "4294967300", "99999999999", "9223372036854775807", "9223372036854775808", "18446744073709551616", "1e18", "1e19", "1e30", "1e308", "1e400", "1e-300", "12.3456789" };
    V v = cross (cross (V{ "", "-", "+", " ", "\t-" }, n), V{ "", "%", " %", "%%", "px", "%x" });
    v.push_back ("inf"); v.push_back ("nan"); v.push_back ("-inf%"); v.push_back ("0x10"); v.push_back (S (500, '9') + "%");
    listed (sp, "percentage, large and tie values", v, t_percent); listed (sp, "numbers, large and tie values", v, t_number); }
  strings (sp, "number", "0189-+. %", TH ? 6 : 5, t_number);
  strings (sp, "number in other notations", "0aFxXe.-9g", TH ? 6 : 5, t_number);
  { V n{ "127", "128", "129", "255", "256", "32767", "65536", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "7fffffff", "80000000", "ffffffff", "100000000", "0x7f", "0xffffffffffffffff", "7fffffffffffffff", "8000000000000000", S (60, '9') };
    listed (sp, "integers at the type limits", cross (cross (V{ "", "-", "+", "  ", " -" }, n), V{ "", " ", "x", "." }), t_number); }
  strings (sp, "list", "ab ,;", TH ? 8 : 7, t_list);
  strings (sp, "list with other white space", "a,\t\n", TH ? 8 : 7, t_list);
  strings (sp, "table", "{}a='\", ", TH ? 7 : 6, t_table);
  { V it{ "a='1'", "b=\"2\"", " a = 'x' ", "a='3'", "c='p q'", "d=''", "a=x", "a='x", "a=x'", "a='x\"", "a=", "='x'", "a", "a='", "a=\"", "", " ", "a= ", "a= ' x ' ", "k_1='v'", "a='b'='c'", "a=''x", "a='x' y" }, v;
    for (S o : { "{", " {", "", "{{", "[" }) for (S c : { "}", "} ", "", "}}" }) { for (auto &x : it) { v.push_back (o + x + c); for (auto &y : it) { v.push_back (o + x + "," + y + c); if (TH || (o == "{" && c == "}")) for (auto &z : it) v.push_back (o + x + "," + y + "," + z + c); } } }
    listed (sp, "table, structured", v, t_table); }
  add (sp, { "hexadecimal colours", nstr ("09aFg", (TH ? 9 : 7) - CUT), [] (uint64_t i) { return "#" + str ("09aFg", i); }, t_hexcolor });
  add (sp, { "rgb colours", 12 * 12 * 12 * 8 * 3, rgbs, t_rgb });
  { V v{ "" }; for (S w : { "black", "white", "red", "blue", "yellow", "cyan", "magenta" }) { v.push_back (w); for (size_t p = 0; p <= w.size (); p++) for (char c : S ("xq_")) { S t = w; t.insert (p, 1, c); v.push_back (t); } }
    for (S w : { "***", "rgb", "rgb(", "#", "hsl(0,0,0)", "1", "rgb()", "rgba(1,2,3)", "transparentx" }) v.push_back (w);
    listed (sp, "colour names and junk", v, t_color); }
}

// ------------------------------------------------------------------- C23
static V comps (const S &p) { V r; for (auto &x : split (p, '/')) if (x != "") r.push_back (x); return r; }
static bool isabs (const S &p) { return p != "" && p[0] == '/'; }
static bool isuri (const S &p)
{
  size_t c = p.find (':'); if (c == S::npos || c < 2 || !isalpha ((unsigned char) p[0])) return false;
  for (size_t i = 0; i < c; i++) if (!(isalnum ((unsigned char) p[i]) && (unsigned char) p[i] < 128) && !strchr ("+-.", p[i])) return false;
  return true;
}
static S cwd () { char b[4096]; return getcwd (b, sizeof b) ? b : "?"; }
static S touri (const S &abs)
{
  S r = "file://"; for (unsigned char c : abs)
    if ((c < 128 && isalnum (c)) || strchr ("-_.!~*'()/&=:@+$,", c)) r += c; else r += fmt ("%%%02X", c);
  return r;
}
static S loweruri (S s) { for (size_t i = 0; i + 2 < s.size (); i++) if (s[i] == '%') { s[i + 1] = toupper (s[i + 1]); s[i + 2] = toupper (s[i + 2]); } return s; }
static void t_path (const S &p, Rep &r)
{
  static bool once = [] { (void) !chdir (vf::scratch ().c_str ()); return true; } (); (void) once;
  if (xpathisabs (p) != isabs (p)) r.fail ("isabs", quote (p) + " misclassified as " + (isabs (p) ? "relative" : "absolute"));
  if (xpathisuri (p) != isuri (p)) r.fail ("isuri", quote (p) + (isuri (p) ? " not" : "") + " taken for a URI");
  // basename: the last component; dirname: what precedes its separators
  S base, dir;
  { size_t e = p.size (); while (e && p[e - 1] == '/') e--; if (p == "") base = "."; else if (!e) base = "/"; else { size_t b = e; while (b && p[b - 1] != '/') b--; base = p.substr (b, e - b); } }
  { size_t e = p.rfind ('/'); if (e == S::npos) dir = "."; else { while (e && p[e - 1] == '/') e--; dir = e ? p.substr (0, e) : "/"; } }
  if (xpathbasename (p) != base) r.fail ("basename", "basename of " + quote (p) + " is " + quote (xpathbasename (p)));
  if (xpathdirname (p) != dir) r.fail ("dirname", "dirname of " + quote (p) + " is " + quote (xpathdirname (p)));
  if (comps (p).size () && p[p.size () - 1] != '/')
    { V a = comps (xpathbuild (xpathdirname (p), xpathbasename (p))), b = comps (p); if (p.find ('/') == S::npos) b.insert (b.begin (), "."); if (a != b) r.fail ("rebuild", "dirname and basename of " + quote (p) + " do not rebuild it"); }
  S m = xpathmakeabs (p);
  if (isabs (p) ? m != p : !isabs (m)) r.fail ("makeabs", quote (p) + " made absolute is " + quote (m));
  V w = comps (cwd ()); if (isabs (p)) w.clear (); for (auto &x : comps (p)) w.push_back (x);
  if (comps (m) != w) r.fail ("makeabs", quote (p) + " made absolute is " + quote (m));
  // URIs
  S u = xurifromsrc (p, "");
  if (isuri (p)) { if (u != p) r.fail ("fromsrc", "URI " + quote (p) + " became " + quote (u)); }
  else
    {
      if (xpathfromuri (u) != m && comps (xpathfromuri (u)) != w) r.fail ("roundtrip", quote (p) + " became " + quote (u) + " and then " + quote (xpathfromuri (u)));
      if (isabs (p) && loweruri (u) != touri (p)) r.fail ("fromsrc", quote (p) + " became " + quote (u) + ", expected " + quote (touri (p)));
      if (!isuri (u)) r.fail ("fromsrc", quote (p) + " became " + quote (u) + ", which is no URI");
    }
  r.nontrivial = comps (p).size () > 0; r.state (isabs (p) ? m : "./" + m.substr (std::min (m.size (), cwd ().size ())));
}
struct Pair { S a; unsigned la, lb; };
static void pairs (Spec &sp, const S &name, const S &al, unsigned la, unsigned lb, std::function<void (const S &, const S &, Rep &)> f)
{ la -= CUT; lb -= CUT;
  uint64_t na = nstr (al, la), nb = nstr (al, lb);
  vf::Family v; v.name = name + fmt (", all pairs of strings of length <= %u and %u over %s", la, lb, quote (al).c_str ()); v.n = na * nb;
  v.exec = [=] (uint64_t i, Rep &r) { S a = str (al, i % na), b = str (al, i / na); r.say (quote (a) + " " + quote (b)); r.steps++; f (a, b, r); };
  v.describe = [=] (uint64_t i) { return name + ": " + quote (str (al, i % na)) + " " + quote (str (al, i / na)); };
  sp.families.push_back (v);
}
static void t_join (const S &a, const S &b, Rep &r)
{
  static bool once = [] { (void) !chdir (vf::scratch ().c_str ()); return true; } (); (void) once;
  S j = xpathbuild (a, b);
  V w = comps (a); for (auto &x : comps (b)) w.push_back (x);
  if (comps (j) != w) r.fail ("join", quote (a) + " joined with " + quote (b) + " is " + quote (j));
  if (isabs (j) != (a == "" ? isabs (b) : isabs (a))) r.fail ("join", quote (a) + " joined with " + quote (b) + " is " + quote (j));
  if (b == "" && a != "" && j != a) r.fail ("join", "joining nothing changed " + quote (a));
  if (a == "" && j != b) r.fail ("join", "joining to nothing changed " + quote (b));
  if (comps (a).size () && comps (b).size ())
    {
      size_t e = a.size (), s = 0; while (e && a[e - 1] == '/') e--; while (s < b.size () && b[s] == '/') s++;
      if (j != a.substr (0, e) + "/" + b.substr (s)) r.fail ("join", quote (a) + " joined with " + quote (b) + " is " + quote (j));
    }
  S k = xpathbuildabs (a, b); V w2 = comps (a == "." ? b : j); if (!isabs (a == "." ? b : j)) { V c = comps (cwd ()); c.insert (c.end (), w2.begin (), w2.end ()); w2 = c; }
  if (!isabs (k) || comps (k) != w2) r.fail ("buildabs", quote (a) + " joined with " + quote (b) + " and made absolute is " + quote (k));
  S u = xurifromsrc (b, a);
  if (isuri (b)) { if (u != b) r.fail ("fromsrc", "URI " + quote (b) + " became " + quote (u)); }
  else
    {
      V want = isabs (b) ? comps (b) : w2; S back = xpathfromuri (u);
      if (!isabs (back) || comps (back) != want) r.fail ("fromsrc", "source " + quote (b) + " relative to " + quote (a) + " became " + quote (u));
    }
  r.nontrivial = true; r.state (j);
}
static void t_cmp (const S &a, const S &b, Rep &r)
{
  if (xstrhasprefix (a, b) != (a.size () >= b.size () && a.substr (0, b.size ()) == b)) r.fail ("prefix", quote (a) + " / " + quote (b));
  if (xstrhassuffix (a, b) != (a.size () >= b.size () && a.substr (a.size () - b.size ()) == b)) r.fail ("suffix", quote (a) + " / " + quote (b));
  S x, y; for (char c : a) x += tolower (c); for (char c : b) y += tolower (c);
  int c = xstrcasecmp (a, b), d = x.compare (y); auto sg = [] (int k) { return k < 0 ? -1 : k > 0; };
  if (sg (c) != sg (d) || xstrcaseeq (a, b) != (x == y)) r.fail ("casecmp", quote (a) + " / " + quote (b));
  if (xstrstrip (a + b) != strip (a + b)) r.fail ("strip", quote (a + b));
  S s = "?"; int n = xstrassign (s, "%s-%s", a.c_str (), b.c_str ());
  if (s != a + "-" + b || n != (int) s.size () || xstrbuild ("%s-%s", a.c_str (), b.c_str ()) != s) r.fail ("format", quote (a) + " / " + quote (b));
  r.nontrivial = true;
}
static void t_contents (const S &data, Rep &r)
{
  S f = vf::scratch () + "/with space%.txt"; vf::write_file (f, data);
  S d = "old"; 
  if (!xurigetcontents (xurifromsrc (f, ""), d) || d != data) r.fail ("contents", fmt ("a file of %zu bytes was read as %zu bytes", data.size (), d.size ()));
  for (S bad : { f, xurifromsrc (f + ".none", ""), S ("nothing"), S (""), S ("file:///"), S ("unknown://a/b") })
    { S e = "old"; if (xurigetcontents (bad, e) || e != "old") r.fail ("contents", "content was read from " + quote (bad)); }
  r.nontrivial = data.size ();
}
static void c23 (Spec &sp)
{
  strings (sp, "path", "a/.:% C", TH ? 8 : 6, t_path);
  strings (sp, "path with other characters", S ("b/\xc3\xa9#?\\~"), TH ? 7 : 5, t_path);
  { V v; for (S sc : { "a", "C", "ab", "file", "http", "x-y", "x.y", "x+y", "1a", "a_b", "-a", "" }) for (S sep : { ":", ":/", "://", ":///", "", "//", ":a:" }) for (S rest : { "", "a", "a/b", "/a", " ", "%20" }) v.push_back (sc + sep + rest);
    V ok; for (auto &s : v) ok.push_back (s); listed (sp, "URI-like strings", ok, t_path); }
  pairs (sp, "join", "a/.: ", TH ? 5 : 4, TH ? 4 : 3, t_join);
  pairs (sp, "join", "/.", TH ? 8 : 6, TH ? 8 : 5, t_join);
  pairs (sp, "join", "ab:/%", 3, TH ? 5 : 3, t_join);
  pairs (sp, "comparison", "aAb ", TH ? 5 : 4, TH ? 5 : 4, t_cmp);
  pairs (sp, "comparison", "zZ[_@`1\t", 3, 3, t_cmp);
  strings (sp, "file contents", S ("a\0\n\xff", 4), TH ? 6 : 4, t_contents);
}
int main (int argc, char **argv)
{
  if (argc > 1 && S (argv[1]) == "C25") CUT = 1;
  g_log_set_default_handler ([] (const gchar *, GLogLevelFlags, const gchar *, gpointer) {}, nullptr);
  S prop = argc > 1 ? argv[1] : "";
  Spec sp; sp.property = prop; sp.level = "model_checking";
  if (prop == "C22") c22 (sp); else if (prop == "C23") c23 (sp); else if (prop == "C25") { c22 (sp); c23 (sp); } else { fprintf (stderr, "unknown property\n"); return 2; }
  sp.rule = "every string (pair) of the family, given to the real functions and to an independent reading of the grammar; non-trivial when the input is accepted (C22) or has a component (C23)";
  sp.assumptions = { "C locale", "hexadecimal floats, infinities and NaN, exponents in times, and colour notations beyond #rgb, rgb() and rgba() are only checked not to crash" };
  return vf::run (sp, argc, argv);
}
