// C29: media presented by other devices.
static S rworld ()
{
  S head = "<connectorBase>";
  for (const char *c : { "onBegin", "onEnd" }) for (const char *a : { "start", "stop", "pause" }) head += cc (S (c) + "_" + a, S ("role='") + c + "'", S ("role='") + a + "'");
  head += "</connectorBase><regionBase><region id='rg' left='5%' top='7%' width='40%' height='50%' zIndex='3'/></regionBase><descriptorBase><descriptor id='d' region='rg'><descriptorParam name='device' value='phone'/></descriptor></descriptorBase>";
  auto P = [] (const S &n, const S &v) { return "<property name='" + n + "' value='" + v + "'/>"; };
  return ncl ("<port id='p' component='l1'/><port id='pc' component='c'/>"
    "<media id='r1' type='application/x-ncl360' src='http://content/scene.ncl'>" + P ("left", "10") + P ("top", "20%") + P ("width", "300") + P ("height", "50%") + P ("zIndex", "7") + P ("transparency", "25%") + "<area id='a' label='L'/><area id='b' begin='1s' end='2s'/></media>"
    "<media id='r2'>" + P ("top", "9") + P ("height", "1%") + P ("transparency", "8%") + P ("device", "tv") + P ("explicitDur", "2s") + "</media>"
    "<context id='c'><port id='q' component='r3'/><media id='r3' descriptor='d'><area id='z' label='Z'/></media></context>"
    "<media id='r4' src='u/scene.ncl360'>" + P ("left", "3") + P ("width", "30%") + P ("zIndex", "2") + "<area id='y' label='Y'/></media>"
    "<media id='l1'><area id='la' label='L'/></media><media id='l2' type='application/x-ginga-timer'/>"
    + ln ("onBegin_start", "onBegin", "component='r1'", "start", "component='r2'") + ln ("onEnd_stop", "onEnd", "component='r2'", "stop", "component='r1'")
    + ln ("onBegin_pause", "onBegin", "component='r1' interface='b'", "pause", "component='c'"), head);
}
struct Reg { S name, location, type; V formats; S body; bool ok; };
static S jlist (const V &v) { S s = "["; for (auto &x : v) s += (s == "[" ? "\"" : ",\"") + x + "\""; return s + "]"; }
static Reg reg (const S &n, const S &loc, const S &ty, const V &f, const V &e, bool ok)
{ return { n, loc, ty, f, "{\"location\":\"" + loc + "\",\"deviceType\":\"" + ty + "\",\"supportedFormats\":" + jlist (f) + ",\"recognizableEvents\":" + jlist (e) + "}", ok }; }
static std::vector<Reg> regs ()
{
  return { reg ("a television", "http://tv:1", "tv", { "x/y" }, { "selection" }, true), reg ("goggles", "http://goggles:2/base", "goggles", { "application/x-ncl360" }, { "onLookAt", "onLookAway" }, true),
    reg ("a television that plays 360", "http://new:3", "tv", { "a/b", "application/x-ncl360" }, { "e" }, true), reg ("a phone", "https://phone:4", "phone", { "text/html" }, { "e" }, true),
    reg ("a radio", "http://radio:5", "radio", { "audio/mp3" }, { "e" }, true) };
}
// registrations that must be refused
static std::vector<Reg> badregs ()
{
  std::vector<Reg> v; V f = { "application/x-ncl360" }, e = { "e" };
  v.push_back (reg ("no location", "", "tv", f, e, false)); v.push_back (reg ("no type", "http://x:1", "", f, e, false)); v.push_back (reg ("no formats", "http://x:1", "tv", {}, e, false)); v.push_back (reg ("no events", "http://x:1", "tv", f, {}, false));
  for (const char *l : { "x", "/x", "x:1", "ftp://x", "file:///x", "http:", "http://", "//x", "mailto:a@b" }) v.push_back (reg (S ("location ") + l, l, "tv", f, e, false));
  const S L = "\"location\":\"http://x:1\"", D = "\"deviceType\":\"tv\"", F = "\"supportedFormats\":[\"application/x-ncl360\"]", E = "\"recognizableEvents\":[\"e\"]";
  for (const S &b : V { "{" + D + "," + F + "," + E + "}", "{" + L + "," + F + "," + E + "}", "{" + L + "," + D + "," + E + "}", "{" + L + "," + D + "," + F + "}", "{" + L + "," + D + "," + F + "," + E, "[" + L + "]", "", "null", "5", "\"x\"", "[]", "{}",
         "{\"location\":{}," + D + "," + F + "," + E + "}", "{" + L + ",\"deviceType\":[\"tv\"]," + F + "," + E + "}", "{" + L + "," + D + ",\"supportedFormats\":[{}]," + E + "}", "{" + L + "," + D + ",\"supportedFormats\":\"application/x-ncl360\"," + E + "}", "{" + L + "," + D + "," + F + ",\"recognizableEvents\":[[]]}",
         "{" + L + "," + D + "," + F + ",\"recognizableEvents\":\"e\"}", "{" + L + "," + D + "," + F + ",\"recognizableEvents\":5}" })
    v.push_back ({ brief (b), "", "", {}, b, false });
  return v;
}
struct Remote
{
  Formatter *f; Rep &r; Time t = 0; uint64_t fr = 0; std::map<S, S> base; bool playing = false; unsigned n = 0;
  Remote (Rep &rep) : f (nullptr), r (rep) { net::reset (); f = player (true); }
  ~Remote () { g_tlog_on = false; delete f; net::drop (); }
  Document *doc () { return f->getDocument (); }
  bool remote (Object *o) { auto id = o->getId (); return id == "r1" || id == "r2" || id == "r3" || id == "r4"; }
  static S dev (const S &id) { return id == "r2" ? "tv" : id == "r3" ? "phone" : ""; }
  static S show (const net::Out &o) { return o.method + " " + o.url + " " + brief (o.body); }
  bool bad (const S &what, const S &cls, const S &m) { r.fail (cls, fmt ("after op %u (%s): ", n, what.c_str ()) + m); return false; }
  // What must have been sent: one per transition, in that order.
  struct Want { S url, action, media; bool full; };
  bool sent (const S &what, size_t from, const std::vector<Want> &w)
  {
    std::vector<net::Out> o (net::out.begin () + from, net::out.end ());
    for (auto &x : o) r.say ("    " + show (x));
    for (size_t k = 0; k < std::max (o.size (), w.size ()); k++)
      {
        if (k >= o.size ()) return bad (what, "missing", "the device was not told to " + w[k].action + " at " + w[k].url);
        if (k >= w.size ()) return bad (what, "extra", "unexpected request " + show (o[k]));
        if (o[k].method != "POST" || o[k].url != w[k].url) return bad (what, "address", "sent " + show (o[k]) + ", expected " + w[k].action + " at " + w[k].url);
        Json::Value j; Json::CharReaderBuilder b; std::unique_ptr<Json::CharReader> rd (b.newCharReader ()); S err;
        if (!rd->parse (o[k].body.data (), o[k].body.data () + o[k].body.size (), &j, &err) || !j.isObject ()) return bad (what, "body", "the body is no JSON object: " + show (o[k]));
        if (w[k].action == "announce")
          {
            if (j["sceneNode"].asString () != w[k].media || j["appId"].asString () == "" || j["documentId"].asString () == "" || !j["notifyEvents"].isArray () || j["sceneURL"].asString () != (w[k].media == "r1" ? S ("http://content/scene.ncl") : w[k].media == "r4" ? doc ()->getObjectById ("r4")->getProperty ("uri") : S ()) || (w[k].media == "r4" && !xstrhassuffix (j["sceneURL"].asString (), "u/scene.ncl360"))) return bad (what, "body", "wrong announcement of " + w[k].media + ": " + o[k].body);
            continue;
          }
        if (j["action"].asString () != w[k].action || j["delay"].asString () != "0") return bad (what, "action", "sent " + show (o[k]) + ", expected " + w[k].action);
        if (!w[k].full) continue;
        Object *m = doc ()->getObjectById (w[k].media); auto &p = j["properties"];
        for (const char *q : { "left", "top", "width", "height", "zIndex", "transparency" })
          {
            S e = m->getProperty (q); if (e == "" && S (q) == "transparency") e = "0%";
            S g = (S (q) == "zIndex" || S (q) == "transparency" ? p : p["bounds"])[q].asString (); if (g != e) return bad (what, "properties", w[k].media + " was started with " + q + " '" + g + "', expected '" + e + "'");
          }
      }
    return true;
  }
  bool device (const Reg &g)
  {
    size_t from = net::out.size (); n++; S what = "register " + g.name; r.say (what); r.steps++;
    auto q = net::request (net::up[0], "POST", WS_ROUTE_PLAYER, g.body);
    std::vector<Want> w; if (g.ok && playing) for (const char *id : { "r1", "r2", "r3", "r4" }) if (dev (id) == g.type || ((S (id) == "r1" || S (id) == "r4") && std::count (g.formats.begin (), g.formats.end (), "application/x-ncl360"))) { base[id] = g.location; w.push_back ({ g.location + (g.location.find ('/', 8) == S::npos ? "/" : ""), "announce", id, false }); }
    if (!g.ok || !playing ? q.status != 404 : w.empty () ? q.status != 200 && q.status != 404 : q.status != 200) return bad (what, "status", fmt ("answered %d", q.status));
    // the order of announcements is free
    std::sort (net::out.begin () + from, net::out.end (), [] (const net::Out &a, const net::Out &b) { auto k = [] (const net::Out &o) { size_t p = o.body.find ("sceneNode"); return p == S::npos ? o.body : o.body.substr (p); }; return k (a) < k (b); });
    return sent (what, from, w) && after (what);
  }
  bool act (const S &what, std::function<void ()> fn)
  {
    size_t from = net::out.size (); n++; r.say (what); r.steps++;
    g_tlog.clear (); g_tlog_on = true; std::map<Event *, Event::State> pre; if (playing) for (auto o : *doc ()->getObjects ()) pre[o->getLambda ()] = o->getLambda ()->getState ();
    fn (); g_tlog_on = false; std::vector<Want> w; bool was = playing; playing = f->getState () == GINGA_STATE_PLAYING;
    if (!playing) { if (was) base.clear (); net::forget (from); return after (what); }   // what the end of the presentation sends is not stated
    for (auto &l : g_tlog)
      {
        Object *o = l.e->getObject (); if (l.e->getType () != Event::PRESENTATION || !remote (o)) continue;
        Event::State s0 = pre[o->getLambda ()]; if (l.e->isLambda ()) pre[l.e] = l.t == Event::START || l.t == Event::RESUME ? Event::OCCURRING : l.t == Event::PAUSE ? Event::PAUSED : Event::SLEEPING;
        auto b = base.find (o->getId ()); if (b == base.end ()) continue; S url = b->second + "/scene/nodes/" + o->getId (), lab = b->second + "/scene/nodes/" + l.e->getLabel ();
        if (l.e->isLambda ()) w.push_back (l.t == Event::START && s0 == Event::SLEEPING ? Want { url, "start", o->getId (), true } : Want { url, l.t == Event::START || l.t == Event::RESUME ? "resume" : l.t == Event::PAUSE ? "pause" : "stop", o->getId (), false });
        else if (l.e->getLabel () != "" && (l.t == Event::START || l.t == Event::STOP || l.t == Event::ABORT)) w.push_back ({ lab, l.t == Event::START ? "start" : "stop", o->getId (), false });
      }
    if (!g_tlog.empty ()) r.nontrivial = true;
    return sent (what, from, w) && after (what);
  }
  bool after (const S &what)
  {
    if (playing) for (const char *id : { "r1", "r2", "r3", "r4", "l1", "l2" }) { S g = doc ()->getObjectById (id)->getProperty ("remotePlayerBaseURL"); auto b = base.find (id); if (g != (b == base.end () ? S () : b->second)) return bad (what, "assignment", S (id) + " is assigned to '" + g + "', expected '" + (b == base.end () ? S () : b->second) + "'"); }
    S st; if (playing) for (const char *id : { "r1", "r2", "r3", "r4" }) { st += fmt ("%d", (int) doc ()->getObjectById (id)->getLambda ()->getState ()); st += base.count (id) ? base[id] : "-"; }
    r.state (st + fmt (" %zu", std::min<size_t> (net::out.size (), 2))); return true;
  }
};
struct ROp { S name; std::function<bool (Remote &)> fn; };
static std::vector<ROp> rops (const S &file)
{
  std::vector<ROp> v; for (auto &g : regs ()) v.push_back ({ "register " + g.name, [g] (Remote &x) { return x.device (g); } });
  auto A = [&] (const S &e, Tr t, const S &val = "") { S w = S (model::tname (t)) + " " + e + (val == "" ? "" : ":=" + val); v.push_back ({ w, [=] (Remote &x) { return x.act (w, [&] { if (!x.doc ()) return; Event *ev = find_event (x.doc (), e); if (ev) x.doc ()->evalAction (ev, t, val); }); } }); };
  A ("r1@lambda", Event::START); A ("r1@lambda", Event::STOP); A ("r1@lambda", Event::PAUSE); A ("r1@lambda", Event::RESUME); A ("r1@a", Event::START); A ("r1@a", Event::STOP); A ("r2@lambda", Event::START); A ("r2@lambda", Event::ABORT);
  A ("c@lambda", Event::PAUSE); A ("c@lambda", Event::RESUME); A ("c@lambda", Event::STOP); A ("r3@z", Event::START); A ("r3@lambda", Event::START); A ("r4@lambda", Event::START); A ("l1@la", Event::START); A ("r1.left", Event::START, "77");
  for (double d : { 0., 1.5 }) { S w = fmt ("tick %.1fs", d); v.push_back ({ w, [=] (Remote &x) { return x.act (w, [&] { Time dd = d * GINGA_SECOND; x.t += dd; x.f->sendTick (x.t, dd, x.fr++); }); } }); }
  v.push_back ({ "the device answers 200", [] (Remote &x) { if (!net::out.empty ()) net::answer (200); return x.after ("answer"); } });
  v.push_back ({ "no device can be reached", [] (Remote &x) { while (!net::out.empty ()) net::answer (SOUP_STATUS_CANT_CONNECT); return x.after ("no answer"); } });
  v.push_back ({ "restart", [file] (Remote &x) { return x.act ("restart", [&] { x.f->stop (); x.base.clear (); x.playing = false; std::string e; x.f->start (file, &e); x.t = 0; }); } });
  v.push_back ({ "stop", [] (Remote &x) { return x.act ("stop", [&] { x.f->stop (); }); } });
  return v;
}
static void rrun (Rep &r, const std::vector<ROp> &v)
{
  static bool w = false; S file = vf::scratch () + "/r.ncl"; if (!w) vf::write_file (file, rworld ()); w = true; r.say (rworld ());
  Remote x (r); std::string e; if (!x.f->start (file, &e)) { r.fail ("harness", "rejected: " + e); return; }
  x.playing = true; for (auto &o : v) if (r.failed || !o.fn (x)) break;
}
static void c29 (Spec &sp)
{
  sp.rule = "all sequences of device registrations, actions on the media bound to devices, ticks, device answers and restarts up to a depth over a document with media bound by type, by device and through a descriptor; every incomplete or malformed registration in several situations; a case counts when a transition happened";
  S file = vf::scratch () + "/r.ncl";
  auto ops = std::make_shared<std::vector<ROp>> (rops (file)); uint64_t n = ops->size ();
  auto pre = std::make_shared<std::vector<std::vector<unsigned>>> (std::vector<std::vector<unsigned>> { {}, { 21 }, { 1, 21 }, { 0, 1, 21 }, { 2, 3, 21, 5 }, { 1, 21, 18 } });
  unsigned D = (vf::thorough () ? 4 : 3) - SHORT;
  auto mk = [=] (uint64_t i) { Dec x (i); std::vector<ROp> v; for (unsigned k : (*pre)[x.next (pre->size ())]) v.push_back ((*ops)[k]); for (unsigned k = 0; k < D; k++) v.push_back ((*ops)[x.next (n)]); return v; };
  auto text = [] (const std::vector<ROp> &v) { S s = "start the document"; for (auto &o : v) s += "; " + o.name; return s; };
  sp.families.push_back ({ "registrations and playback", pre->size () * vf::ipow (n, D), [=] (uint64_t i, Rep &r) { rrun (r, mk (i)); }, [=] (uint64_t i) { return text (mk (i)); } });
  auto bad = std::make_shared<std::vector<ROp>> (); for (auto &g : badregs ()) bad->push_back ({ "register " + g.name, [g] (Remote &x) { return x.device (g); } });
  static const unsigned LAST[] = { 0, 5, 21, 7 }; uint64_t last = SHORT ? 1 : vf::thorough () ? n : 4;
  auto mb = [=] (uint64_t i) { Dec x (i); std::vector<ROp> v; for (unsigned k : (*pre)[x.next (pre->size ())]) v.push_back ((*ops)[k]); v.push_back ((*ops)[x.next (n)]); v.push_back ((*bad)[x.next (bad->size ())]); unsigned l = x.next (last); v.push_back ((*ops)[last == n ? l : LAST[l]]); return v; };
  sp.families.push_back ({ "registrations that are refused", pre->size () * n * last * bad->size (), [=] (uint64_t i, Rep &r) { rrun (r, mb (i)); }, [=] (uint64_t i) { return text (mb (i)); } });
}
