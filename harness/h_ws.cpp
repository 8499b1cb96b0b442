// C24: requests to the web service; C29: media presented by other devices.
#include "drive.h"
#include "net.h"
#include "WebServices.h"
#include "Player.h"
#include <json/json.h>
#include <memory>
#include <algorithm>
using namespace ginga; using vf::Rep; using vf::Spec; using vf::fmt; using vf::Dec; typedef std::string S; typedef std::vector<S> V;
typedef Event::Transition Tr;

static Formatter *player (bool ws)
{
  GingaOptions o; o.width = 800; o.height = 600; o.debug = o.opengl = o.experimental = false; o.webservices = ws; o.background = "";
  return new Formatter (&o);
}
static int ev_of (model::Model &m, const S &obj, Event::Type t, const S &id)
{ for (size_t k = 0; k < m.e.size (); k++) if (m.o[m.e[k].obj].id == obj && m.e[k].type == t && m.e[k].id == id) return k; return -1; }

// ------------------------------------------------------------------ C24: the document
static S cc (const S &id, const S &cond, const S &act, const S &param = "")
{ return "<causalConnector id='" + id + "'>" + param + "<simpleCondition " + cond + "/><simpleAction " + act + "/></causalConnector>"; }
static S ln (const S &c, const S &r1, const S &b1, const S &r2, const S &b2, const S &key = "")
{ return "<link xconnector='" + c + "'><bind role='" + r1 + "' " + b1 + ">" + (key == "" ? S () : "<bindParam name='k' value='" + key + "'/>") + "</bind><bind role='" + r2 + "' " + b2 + "/></link>"; }
static S world ()
{
  S head = "<connectorBase>", kp = "<connectorParam name='k'/>";
  for (const char *a : { "start", "stop", "pause", "resume", "abort", "set" }) { S act = S ("role='") + a + "'" + (S (a) == "set" ? " value='5'" : "");
      head += cc (S ("sel_") + a, "role='onSelection' key='$k'", act, kp) + cc (S ("any_") + a, "role='onSelection'", act) + cc (S ("at_") + a, "role='onLookAt'", act) + cc (S ("away_") + a, "role='onLookAway'", act)
              + cc (S ("unsel_") + a, "role='selend' eventType='selection' transition='stops' key='$k'", act, kp); }
  head += "</connectorBase>";
  return ncl ("<port id='p' component='m'/><port id='pc' component='c'/><port id='ps' component='s'/>"
    "<media id='m'><property name='x' value='0'/><property name='focusIndex' value='1'/><area id='a' begin='1s' end='3s'/></media>"
    "<media id='n'/><media id='n2'/><media id='n3'/>"
    "<context id='c'><property name='y' value='0'/><port id='q' component='k'/><media id='k'/><media id='k2'/>"
    + ln ("sel_start", "onSelection", "component='k'", "start", "component='k2'", "BLUE") + ln ("sel_stop", "onSelection", "component='k2'", "stop", "component='k'", "BLUE") + "</context>"
    "<switch id='s'><defaultComponent component='s1'/><media id='s1'/></switch><media id='st' type='application/x-ginga-settings'><property name='g' value='0'/></media>"
    + ln ("sel_start", "onSelection", "component='m'", "start", "component='n'", "RED") + ln ("unsel_set", "selend", "component='m'", "set", "component='m' interface='x'", "RED")
    + ln ("any_pause", "onSelection", "component='m'", "pause", "component='n'")
    + ln ("at_start", "onLookAt", "component='m'", "start", "component='n2'") + ln ("away_stop", "onLookAway", "component='m'", "stop", "component='n2'")
    + ln ("at_pause", "onLookAt", "component='m' interface='a'", "pause", "component='m'") + ln ("away_resume", "onLookAway", "component='m' interface='a'", "resume", "component='m'")
    + ln ("sel_stop", "onSelection", "component='n'", "stop", "component='m'", "RED") + ln ("at_abort", "onLookAt", "component='n'", "abort", "component='c'")
    + ln ("sel_start", "onSelection", "component='c'", "start", "component='n3'", "RED") + ln ("sel_start", "onSelection", "component='s'", "start", "component='n3'", "RED")
    + ln ("at_start", "onLookAt", "component='c'", "start", "component='n3'") + ln ("sel_set", "onSelection", "component='st'", "set", "component='m' interface='x'", "5")
    + ln ("at_start", "onLookAt", "component='m' interface='x'", "start", "component='n3'"), head);
}
struct Path { S path, node; bool ok; };
static std::vector<Path> paths ()
{
  std::vector<Path> v; const S R = WS_ROUTE_APPS;
  for (const char *n : { "m", "n", "k", "k2", "c", "s", "st", "__settings__", "zz", "M", "m/", "m/a", "a", "p", "m@lambda", "n3" }) v.push_back ({ R + "1/ncl/" + n, n, true });
  v.push_back ({ R + "x/y/m", "m", true });               // application and document ids are ignored
  for (const char *x : { "", "1", "1/", "1/ncl", "1/ncl/", "/ncl/m", "1//m", "//m", "//", "/", "m", "/m" }) v.push_back ({ R + x, "", false });
  for (const char *x : { "/current-service/apps", "/current-service/app/1/ncl/m", "/current-service", "/", "/1/ncl/m", "/current-service/appsx/1/ncl/m", "/current-service/apps?1/ncl/m" }) v.push_back ({ x, "", false });
  v.push_back ({ R + "1/ncl/" + S (5000, 'm'), S (5000, 'm'), true });
  return v;
}
struct Body { S text; bool ok; S action, iface, value; };
static S js (const S &a, const S &i, const S &v, bool hi, bool hv)
{ return "{\"action\":\"" + a + "\"" + (hi ? ",\"interface\":\"" + i + "\"" : S ()) + (hv ? ",\"value\":\"" + v + "\"" : S ()) + "}"; }
static std::vector<Body> bodies ()
{
  std::vector<Body> v;
  for (const char *a : { "select", "lookAt", "lookAway", "Select", "lookat", "start", "" })
    {
      for (const char *x : { "RED", "BLUE", "5", "red", "ENTER", "RED " }) v.push_back ({ js (a, "", x, false, true), true, a, "", x });
      for (const char *x : { "a", "x", "@lambda", "zz", "RED", "A" }) v.push_back ({ js (a, x, "", true, false), true, a, x, "" });
      v.push_back ({ js (a, "", "", false, false), true, a, "", "" }); v.push_back ({ js (a, "", "", true, true), true, a, "", "" });
      v.push_back ({ js (a, "a", "RED", true, true), true, a, "a", "RED" }); v.push_back ({ js (a, "RED", "a", true, true), true, a, "RED", "a" });
    }
  v.push_back ({ "{\"action\": \"select\", \"value\": \"RED\",   }", true, "select", "", "RED" });    // the project's own macros end like this
  v.push_back ({ "{\"action\":\"select\",\"value\":5}", true, "select", "", "5" });
  v.push_back ({ "{\"action\":\"select\",\"value\":null}", true, "select", "", "" });
  v.push_back ({ "{\"action\":\"lookAt\",\"interface\":null,\"value\":null,\"more\":[1,{}]}", true, "lookAt", "", "" });
  v.push_back ({ "\n {\"value\":\"R\\u0045D\",\"action\":\"select\"} \n", true, "select", "", "RED" });
  v.push_back ({ "{\"action\":\"select\",\"value\":\"RED\\u0000\"}", true, "select", "", S ("RED\0", 4) });
  for (const char *b : { "", " ", "{", "}", "null", "[]", "[\"select\"]", "\"select\"", "select", "5", "true", "1e999", "{}{", "{\"action\":}", "{\"action\":\"select\",\"value\":\"RED\"", "{\"action\":\"select\" \"value\":\"RED\"}", "{action:select}",
       "action=select&value=RED", "<select/>", "{\"action\":{}}", "{\"action\":[\"select\"],\"value\":\"RED\"}", "{\"action\":\"select\",\"value\":[]}", "{\"action\":\"select\",\"value\":{\"a\":\"RED\"}}", "{\"action\":\"lookAt\",\"interface\":[\"a\"]}", "{\"action\":\"lookAt\",\"interface\":{}}", "{\"action\":\"lookAt\",\"value\":[1]}",
       "{\"action\":\"select\",\"value\":\"\\ud800\"}", "{\"action\":\"select\",\"value\":\"\\x\"}", "{}", "{\"Action\":\"select\",\"value\":\"RED\"}" })
    v.push_back ({ b, false, "", "", "" });
  v.push_back ({ S ("{\"action\":\"select\",\0\"value\":\"RED\"}", 35), false, "", "", "" });
  v.push_back ({ S (1500, '['), false, "", "", "" }); v.push_back ({ S (1500, '[') + S (1500, ']'), false, "", "", "" });
  { S d; for (int k = 0; k < 1500; k++) d += "{\"action\":"; v.push_back ({ d, false, "", "", "" }); }
  v.push_back ({ "{\"action\":\"" + S (100000, 'x') + "\"}", false, "", "", "" });
  return v;
}
static S brief (const S &s) { S r; for (char c : s.substr (0, 90)) if (c < 32 || c == 127) r += fmt ("\\x%02x", (unsigned char) c); else r += c; return r + (s.size () > 90 ? fmt ("... (%zu bytes)", s.size ()) : S ()); }

// The request, on the real player and on the model.
static S request (Drive &d, const Path &p, const Body &b, const S &method = "POST")
{
  if (net::up.size () != 1) return fmt ("%zu servers are listening", net::up.size ());
  bool doc = d.doc () != nullptr; unsigned out0 = net::sent;
  g_tlog_on = true; net::Resp r = net::request (net::up[0], method, p.path, b.text); g_tlog_on = false;
  if (net::sent != out0) return "the request made the player send another one";
  int want = 404; bool either = false;
  if (doc && p.ok && b.ok)
    {
      model::Model &m = d.m (); int e = -1;
      if (b.action == "select") e = ev_of (m, p.node, Event::SELECTION, b.value);
      else if (b.action == "lookAt" || b.action == "lookAway") e = ev_of (m, p.node, Event::LOOKAT, b.iface == "" ? S ("@lambda") : b.iface);
      if (e >= 0)
        {
          want = 200; int n = 0;
          if (b.action != "lookAway") n += m.action (e, Event::START);
          if (b.action != "lookAt") n += m.action (e, Event::STOP);
          either = n == 0;                                 // named, but not possible now
        }
    }
  if (r.status == 0) return "no answer";
  if (r.status != want && !(either && (r.status == 200 || r.status == 404))) return fmt ("answered %d, expected %d", r.status, want);
  return "";
}
static Op R (const Path &p, const Body &b)
{ return FN ("POST " + brief (p.path) + " " + brief (b.text), [p, b] (Drive &d) { return request (d, p, b); }); }
static Op RQ (const S &node, const S &action, const S &iface, const S &value)
{ return R ({ S (WS_ROUTE_APPS) + "1/ncl/" + node, node, true }, { js (action, iface, value, iface != "", value != ""), true, action, iface, value }); }

static void run (Rep &r, const S &text, const std::vector<Op> &ops)
{
  net::reset ();
  {
    Drive d (player (true), { { "w.ncl", text, true }, { "bad.ncl", "<ncl><body><port id='p' component='no'/></body></ncl>", false } }, r, C_ORDER, false);
    for (auto &o : ops) if (!d.step (o)) break;
    net::drop ();
  }
  if (!r.failed && !net::up.empty ()) r.fail ("listening", "the service of a destroyed player is still up");
}
static S showall (const std::vector<Op> &v) { S s; for (auto &o : v) s += (s == "" ? "" : "; ") + show (o); return s; }

static std::vector<std::pair<S, std::vector<Op>>> situations ()
{
  auto S0 = START (0), t0 = T (0);
  return { { "just started", { S0 } }, { "playing", { S0, t0 } }, { "anchor occurring", { S0, t0, T (1.5) } }, { "after the anchor", { S0, t0, T (4) } },
    { "m paused", { S0, t0, A ("m@lambda", Event::PAUSE) } }, { "m stopped", { S0, t0, A ("m@lambda", Event::STOP) } }, { "c aborted", { S0, t0, A ("c@lambda", Event::ABORT) } },
    { "body paused", { S0, t0, A ("__root__@lambda", Event::PAUSE) } }, { "key held", { S0, t0, K ("RED", true) } }, { "looked at", { S0, t0, RQ ("m", "lookAt", "", "") } }, { "anchor looked at", { S0, t0, RQ ("m", "lookAt", "a", "") } },
    { "n and k2 on", { S0, t0, RQ ("m", "select", "", "RED"), RQ ("k", "select", "", "BLUE") } }, { "stopped", { S0, t0, FSTOP () } }, { "restarted", { S0, t0, FSTOP (), S0, t0 } }, { "all ended", { S0, t0, A ("m@lambda", Event::STOP), A ("c@lambda", Event::STOP), A ("s@lambda", Event::STOP), T (1) } }, { "failed start", { S0, t0, FSTOP (), START (1) } } };
}

// ------------------------------------------------------------------ C24: service life cycle
static const char *LOC[] = { "start the document", "stop the document", "service on", "service off", "select", "location", "set option on", "set option off" };
static void life (uint64_t i, unsigned depth, unsigned env, bool ws, Rep &r, S *desc)
{
  Dec x (i); net::reset (); if (env & 1) net::busy.insert (WS_PORT_DEFAULT); if (env & 2) net::busy.insert (WS_PORT_DEFAULT + 1);
  if (desc) *desc = fmt ("option webservices %s, port %d %s, port %d %s:", ws ? "on" : "off", WS_PORT_DEFAULT, env & 1 ? "in use" : "free", WS_PORT_DEFAULT + 1, env & 2 ? "in use" : "free");
  S file = vf::scratch () + "/l.ncl"; Formatter *f = nullptr; bool opt = ws, on = false, playing = false; r.nontrivial = true;
  if (!desc) { static bool w = false; if (!w) vf::write_file (file, world ()); w = true; f = player (ws); }
  auto svc = [&] (bool v) { on = v && env != 3; };
  for (unsigned k = 0; k < depth && !r.failed; k++)
    {
      unsigned o = x.next (8); S what = LOC[o]; if (desc) { *desc += " " + what + ";"; continue; }
      r.say (what); r.steps++; S e;
      switch (o)
        {
        case 0: { bool g = f->start (file, &e); if (g == playing) r.fail ("start", what + fmt (" returned %d", g)); if (!playing && opt && !on) svc (true); playing = true; break; }
        case 1: { bool g = f->stop (); if (g != playing) r.fail ("stop", what + fmt (" returned %d", g)); playing = false; break; }
        case 2: case 3: Formatter::setOptionWebServices (f, "webservices", o == 2); if (o == 3) on = false; else if (!on) svc (true); break;
        case 6: case 7: f->setOptionBool ("webservices", o == 6); opt = o == 6; if (o == 7) on = false; else if (!on) svc (true); if (f->getOptionBool ("webservices") != opt) r.fail ("option", "option webservices reads wrong"); break;
        case 4: if (on && !net::up.empty ())
            {
              Event *n = playing ? find_event (f->getDocument (), "n@lambda") : nullptr; Event::State s0 = n ? n->getState () : Event::SLEEPING; bool was = s0 == Event::OCCURRING; (void) was;
              auto q = net::request (net::up[0], "POST", S (WS_ROUTE_APPS) + "1/ncl/m", "{\"action\":\"select\",\"value\":\"RED\"}");
              if (q.status != (playing ? 200 : 404)) r.fail ("status", what + fmt (" was answered %d", q.status));
              else if (n && n->getState () != Event::OCCURRING) r.fail ("effect", "the selection had no effect");
            }
          break;
        case 5: if (on && !net::up.empty ())
            {
              auto q = net::request (net::up[0], "GET", WS_ROUTE_LOC, ""); S base = fmt ("//127.0.0.1:%d", WS_PORT_DEFAULT + (env & 1));
              if (q.status != 200 || net::header (q, "GingaCC-Server-BaseURL") != "http:" + base || net::header (q, "GingaCC-Server-SecureBaseURL") != "https:" + base || net::header (q, "GingaCC-Server-PairingMethods") != "qcode,kex")
                r.fail ("location", fmt ("the location request was answered %d with base URL %s", q.status, net::header (q, "GingaCC-Server-BaseURL").c_str ()));
            }
          break;
        }
      if (r.failed) break;
      if (net::up.size () != (on ? 1u : 0u)) r.fail ("listening", "after '" + what + fmt ("' %zu servers listen, expected %d", net::up.size (), on));
      else if (on && net::ports[0] != (unsigned) WS_PORT_DEFAULT + (env & 1)) r.fail ("port", fmt ("listening at port %u", net::ports[0]));
      else if ((f->getWebServices ()->getState () == WS_STATE_STARTED) != on) r.fail ("service-state", "after '" + what + "' the service reports the wrong state");
      if ((f->getState () == GINGA_STATE_PLAYING) != playing) r.fail ("playing", "after '" + what + "' the player is in the wrong state");
      r.state (fmt ("%d%d%d%u", on, playing, opt, env));
    }
  if (desc) return;
  delete f; net::drop ();
  if (!r.failed && !net::up.empty ()) r.fail ("listening", "the service of a destroyed player is still up");
}

static void seqs (Spec &sp, const S &name, const S &text, const std::vector<Op> &pre, const std::vector<Op> &ops, unsigned depth)
{
  auto o = std::make_shared<std::vector<Op>> (ops); auto p = std::make_shared<std::vector<Op>> (pre);
  auto mk = [=] (uint64_t i) { std::vector<Op> v = *p; Dec x (i); for (unsigned k = 0; k < depth; k++) v.push_back ((*o)[x.next (o->size ())]); return v; };
  sp.families.push_back ({ name, vf::ipow (ops.size (), depth), [=] (uint64_t i, Rep &r) { run (r, text, mk (i)); }, [=] (uint64_t i) { return showall (mk (i)); } });
}
static unsigned SHORT = 0; // the memory check goes less deep
static void c24 (Spec &sp)
{
  sp.rule = "every path form x every body form, in every playback situation of a document with links on selections and looks; all sequences of requests, ticks, keys, actions, stops and restarts up to a depth; all sequences of service and document switches; a case counts when something happened";
  auto ps = std::make_shared<std::vector<Path>> (paths ()); auto bs = std::make_shared<std::vector<Body>> (bodies ()); auto st = std::make_shared<std::vector<std::pair<S, std::vector<Op>>>> (situations ()); S text = world ();
  // ill-formed paths meet some well-formed bodies, ill-formed bodies some paths; thorough: every pair
  auto pr = std::make_shared<std::vector<std::pair<unsigned, unsigned>>> (); unsigned nbad = 0;
  for (unsigned a = 0; a < ps->size (); a++) for (unsigned b = 0; b < bs->size (); b++)
    if (SHORT ? a == 0 || b == 0 : vf::thorough () || ((*ps)[a].ok ? (*bs)[b].ok || a < 3 || a == 8 : (*bs)[b].ok ? b % 16 == 0 : (nbad++ % 7) == 0)) pr->push_back ({ a, b });
  uint64_t np = pr->size (), ns = st->size ();
  auto mk = [=] (uint64_t i) { Dec x (i); auto &s = (*st)[x.next (ns)]; std::vector<Op> v = s.second; auto &q = (*pr)[x.next (np)]; auto &p = (*ps)[q.first]; auto &b = (*bs)[q.second]; v.push_back (R (p, b)); v.push_back (T (0.25)); return v; };
  sp.families.push_back ({ "every request in every situation", np * ns, [=] (uint64_t i, Rep &r) { run (r, text, mk (i)); }, [=] (uint64_t i) { return showall (mk (i)); } });
  auto S0 = START (0);
  std::vector<Op> q = { RQ ("m", "select", "", "RED"), RQ ("m", "select", "", ""), RQ ("m", "lookAt", "", ""), RQ ("m", "lookAway", "", ""), RQ ("m", "lookAt", "a", ""), RQ ("m", "lookAway", "a", ""), RQ ("n", "select", "", "RED"), RQ ("n", "lookAt", "", ""), RQ ("k", "select", "", "BLUE"), RQ ("k2", "select", "", "BLUE"), RQ ("st", "select", "", "5"), RQ ("__settings__", "select", "", "5"), RQ ("m", "lookAt", "x", ""), RQ ("c", "lookAt", "", ""), RQ ("m", "select", "", "nokey") };
  std::vector<Op> all = q; for (auto &o : { T (0), T (1.5), K ("RED", true), K ("RED", false), A ("m@lambda", Event::PAUSE), A ("c@lambda", Event::STOP), A ("m@lambda", Event::STOP), A ("m@lambda", Event::START), FSTOP (), S0 }) all.push_back (o);
  seqs (sp, "sequences of requests", text, { S0, T (0) }, q, (vf::thorough () ? 4 : 3) - SHORT);
  seqs (sp, "sequences of requests, ticks, keys, actions and restarts", text, { S0, T (0) }, all, (vf::thorough () ? 4 : 3) - SHORT);
  unsigned D = (vf::thorough () ? 5 : 4) - SHORT;
  sp.families.push_back ({ "service and document life cycle", vf::ipow (8, D) * 8, [=] (uint64_t i, Rep &r) { life (i / 8, D, i & 3, i >> 2 & 1, r, nullptr); }, [=] (uint64_t i) { S s; Rep r; life (i / 8, D, i & 3, i >> 2 & 1, r, &s); return s; } });
}
#include "remote.h"
int main (int argc, char **argv)
{
  if (argc < 2) return 2;
  Spec sp; sp.property = argv[1]; sp.level = "model_checking";
  sp.assumptions = { "sockets and SSDP announcements are played by the harness: requests reach libsoup's real server through a socket pair, outgoing requests are recorded where the player queues them" };
  if (sp.property == "C24") c24 (sp); else if (sp.property == "C29") c29 (sp); else if (sp.property == "C25") { SHORT = 1; c24 (sp); c29 (sp); if (!vf::thorough ()) for (auto &f : sp.families) if (f.n > 3000) vf::thin (f, 3, "case"); } else return 2;
  return vf::run (sp, argc, argv);
}
