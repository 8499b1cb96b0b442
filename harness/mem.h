// C25: documents that use every part of the library x all sequences of
// operations, cut off at any point by destroying the player.
#ifndef MEM_H
#define MEM_H

static const std::vector<std::pair<S, S>> &mem_docs ()
{
  static std::vector<std::pair<S, S>> v;
  if (!v.empty ()) return v;
  auto geo = [] (const S &l, const S &t) { return prop ("left", l) + prop ("top", t) + prop ("width", "6") + prop ("height", "5") + prop ("background", "red") + prop ("transparency", "0") + prop ("x", "0"); };
  S head = "<connectorBase><causalConnector id='bb'><simpleCondition role='onBegin'/><simpleAction role='start' delay='1s'/></causalConnector>"
    "<causalConnector id='ee'><simpleCondition role='onEnd'/><compoundAction operator='seq'><simpleAction role='start'/><simpleAction role='set' value='7' duration='1s'/></compoundAction></causalConnector>"
    "<causalConnector id='sel'><connectorParam name='k'/><compoundCondition operator='and'><simpleCondition role='onSelection' key='$k'/><assessmentStatement comparator='eq'><attributeAssessment role='tst' eventType='attribution' attributeType='nodeProperty'/><valueAssessment value='0'/></assessmentStatement></compoundCondition><compoundAction operator='par'><simpleAction role='stop'/><simpleAction role='set' value='5'/></compoundAction></causalConnector>"
    "<causalConnector id='bs'><simpleCondition role='onBegin'/><simpleAction role='stop'/></causalConnector></connectorBase>";
  S links = "<link xconnector='bb'><bind role='onBegin' component='m'/><bind role='start' component='n'/></link>"
    "<link xconnector='ee'><bind role='onEnd' component='m'/><bind role='start' component='n'/><bind role='set' component='m' interface='left'/></link>"
    "<link xconnector='sel'><linkParam name='k' value='RED'/><bind role='onSelection' component='m'/><bind role='tst' component='m' interface='x'/><bind role='stop' component='m'/><bind role='set' component='n' interface='x'/></link>";
  v.push_back ({ "links, delayed actions, anchors", doc ("<port id='p' component='m'/><media id='m'>" + geo ("2", "3") + "<area id='a' begin='0.5s' end='1s'/></media><media id='n'>" + geo ("9", "4") + prop ("explicitDur", "1s") + "</media>" + links
    + "<link xconnector='bs'><bind role='onBegin' component='m' interface='a'/><bind role='stop' component='n'/></link>", head) });
  v.push_back ({ "nested contexts", doc ("<port id='p' component='c'/><context id='c'><property name='y' value='1'/><port id='q' component='d'/><port id='q2' component='m'/><context id='d'><port id='r' component='n'/><media id='n'>" + geo ("9", "4")
    + "</media></context><media id='m'>" + geo ("2", "3") + "</media></context>") });
  v.push_back ({ "switches and rules", "<ncl><head><ruleBase><rule id='r1' var='v' comparator='eq' value='1'/><compositeRule id='r2' operator='or'><rule id='r3' var='v' comparator='eq' value='2'/><compositeRule id='r4' operator='and'><rule id='r5' var='v' comparator='ne' value='3'/><rule id='r6' var='w' comparator='eq' value='0'/></compositeRule></compositeRule></ruleBase></head><body>"
    "<port id='p' component='s'/><media id='st' type='application/x-ginga-settings'><property name='v' value='2'/></media><switch id='s'><bindRule rule='r1' constituent='n'/><bindRule rule='r2' constituent='m'/><defaultComponent component='t'/><media id='m'>" + geo ("2", "3") + "</media><media id='n'>" + geo ("9", "4") + "</media><switch id='t'><defaultComponent component='u'/><media id='u'/></switch></switch></body></ncl>" });
  v.push_back ({ "references", doc ("<port id='p' component='m'/><port id='p2' component='g'/><media id='m'>" + geo ("2", "3") + "<area id='a' begin='1s'/></media><context id='c'><port id='q' component='m2'/><media id='m2' refer='m' instance='instSame'><property name='z' value='1'/></media></context><media id='g' refer='m' instance='gradSame'><area id='b' begin='0.5s'/></media><media id='w' refer='m' instance='new'/><media id='n'>" + geo ("9", "4") + "</media>" + links, head) });
  v.push_back ({ "settings and focus", "<ncl><head><connectorBase><causalConnector id='sel'><simpleCondition role='onSelection' key='ENTER'/><simpleAction role='set' value='2'/></causalConnector></connectorBase><regionBase><region id='r' left='10%' top='1' width='50%' height='50%'><region id='rr' left='1' top='1' width='60%' height='60%'/></region></regionBase><descriptorBase><descriptor id='d1' region='rr' focusIndex='1' moveRight='2' moveDown='3' explicitDur='3s'/><descriptor id='d2' region='r' focusIndex='2' moveLeft='1' moveRight='1' focusBorderColor='blue' focusBorderWidth='2' selBorderColor='lime'><descriptorParam name='transparency' value='0.5'/></descriptor></descriptorBase></head><body>"
    "<port id='p' component='m'/><port id='q' component='n'/><media id='st' type='application/x-ginga-settings'><property name='service.currentFocus' value='1'/></media><media id='m' descriptor='d1'>" + prop ("background", "red") + prop ("x", "0") + prop ("left", "1") + prop ("transparency", "0") + "</media><media id='n' descriptor='d2'>" + prop ("background", "lime") + prop ("x", "0") + "</media>"
    "<link xconnector='sel'><bind role='onSelection' component='m'/><bind role='set' component='st' interface='service.currentFocus'/></link></body></ncl>" });
  static const char *TR[] = { "fade", "barWipe", "diagonalWipe", "irisWipe", "clockWipe" };
  S tb = "<transitionBase>"; for (auto t : TR) tb += S ("<transition id='t_") + t + "' type='" + t + "' dur='1s'/>"; tb += "</transitionBase>";
  for (auto t : TR)
    v.push_back ({ S ("transition ") + t, doc ("<port id='p' component='m'/><port id='q' component='n'/><media id='m' descriptor='d'>" + geo ("2", "3") + "</media><media id='n'>" + geo ("6", "4") + "</media>",
      tb + "<descriptorBase><descriptor id='d' transIn='t_" + t + "' transOut='t_fade'/></descriptorBase>") });
  v.push_back ({ "text", doc ("<port id='p' component='m'/><port id='q' component='n'/><media id='m' src='t.txt'>" + geo ("2", "3") + prop ("fontSize", "6") + prop ("fontColor", "blue") + prop ("fontFamily", "serif") + "</media><media id='n' src='t.txt'>" + geo ("6", "4") + prop ("horzAlign", "right") + prop ("vertAlign", "bottom") + prop ("fontBgColor", "lime") + "</media>") });
  v.push_back ({ "images", doc ("<port id='p' component='m'/><port id='q' component='n'/><media id='m' src='i.png'>" + geo ("2", "3") + "</media><media id='n' src='i.png' descriptor='d'>" + geo ("6", "4") + "</media>", tb + "<descriptorBase><descriptor id='d' transIn='t_barWipe'/></descriptorBase>") });
  return v;
}
static void mem (Spec &sp)
{
  struct Op { S what; std::function<void (Play &)> f; };
  auto O = std::make_shared<std::vector<Op>> ();
  for (double t : { .5, 2. }) O->push_back ({ fmt ("tick %g", t), [=] (Play &p) { p.tick (t); } });
  O->push_back ({ "redraw", [] (Play &p) { p.draw (); } });
  O->push_back ({ "resize", [] (Play &p) { p.resize (p.w == 24 ? 30 : 24, 18); } });
  for (S k : { "CURSOR_RIGHT", "ENTER", "RED" }) O->push_back ({ "key " + k, [=] (Play &p) { p.f->sendKey (k, true); p.f->sendKey (k, false); } });
  static const std::pair<Event::Transition, const char *> T[] = { { Event::START, "start" }, { Event::STOP, "stop" }, { Event::PAUSE, "pause" }, { Event::RESUME, "resume" }, { Event::ABORT, "abort" } };
  for (auto &t : T) { auto x = t; O->push_back ({ S (x.second) + " m", [=] (Play &p) { p.act ("m@lambda", x.first); } }); }
  for (S a : { "left", "transparency", "background" }) O->push_back ({ "animate m." + a, [=] (Play &p) { p.act ("m." + a, Event::START, a == "background" ? "blue" : a == "left" ? "50%" : "40%", "1s"); } });
  O->push_back ({ "m.x:=9", [] (Play &p) { p.act ("m.x", Event::START, "9"); } });
  O->push_back ({ "stop n", [] (Play &p) { p.act ("n@lambda", Event::STOP); } });
  O->push_back ({ "pause the presentation's body", [] (Play &p) { if (p.doc ()) p.act (p.doc ()->getRoot ()->getId () + "@lambda", Event::PAUSE); } });
  O->push_back ({ "stop the presentation's body", [] (Play &p) { if (p.doc ()) p.act (p.doc ()->getRoot ()->getId () + "@lambda", Event::STOP); } });
  O->push_back ({ "stop the player", [] (Play &p) { p.f->stop (); } });
  O->push_back ({ "start again", [] (Play &p) { S e; p.f->start (p.file, &e); } });
  auto few = std::make_shared<std::vector<Op>> ();
  for (auto &o : *O) for (const char *w : { "tick 0.5", "redraw", "key ENTER", "key RED", "start m", "stop m", "pause m", "animate m.left", "stop the presentation's body", "stop the player", "start again" }) if (o.what == w) few->push_back (o);
  uint64_t nd = mem_docs ().size ();
  for (int two = 0; two < 2; two++) {
  auto U = two ? O : few; uint64_t n = U->size (); int dep = (vf::thorough () ? 4 : 3) - two;
  sp.families.push_back ({ fmt ("documents using every part, all sequences of %d operations out of %d", dep, (int) n), nd * vf::ipow (n, dep), [=] (uint64_t i, Rep &rep) {
      static bool once = false;
      if (!once)
        {
          once = true; vf::write_file (Play::dir () + "/t.txt", "some words\nand \xc3\xa9\n");
          cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, 4, 2); cairo_t *cr = cairo_create (s); cairo_set_source_rgb (cr, 0, 1, 0); cairo_paint (cr); cairo_destroy (cr); cairo_surface_write_to_png (s, (Play::dir () + "/i.png").c_str ()); cairo_surface_destroy (s);
        }
      Dec d (i); auto &dc = mem_docs ()[d.next (nd)]; rep.say (dc.second); rep.nontrivial = true;
      Play p (dc.second, 24, 18); if (!p.started) { rep.fail ("harness", p.err); return; }
      for (int k = 0; k < dep; k++) { auto &o = (*U)[d.next (n)]; rep.say (o.what); o.f (p); rep.steps++; rep.state (p.states ()); }
      Pic q = p.draw (); rep.state (fmt ("%llx", (unsigned long long) vf::hash (S ((char *) q.p.data (), q.p.size () * 4)))); },
    [=] (uint64_t i) { Dec d (i); S s = mem_docs ()[d.next (nd)].first + ":"; for (int k = 0; k < dep; k++) s += " " + (*U)[d.next (n)].what + ";"; return s; } });
  }
  // every value of every property, on every kind of media, however it is given
  struct PV { S n, v; }; auto X = std::make_shared<std::vector<PV>> ();
  static const std::vector<std::pair<S, V>> PVS = { { "horzAlign", { "left", "center", "right", "justified", "" } }, { "vertAlign", { "top", "middle", "bottom", "" } }, { "fontStyle", { "italic", "" } }, { "fontWeight", { "bold", "" } }, { "fontVariant", { "small-caps", "" } }, { "fontFamily", { "serif", "no such font", "" } }, { "fontSize", { "4", "20", "" } }, { "fontColor", { "red", "#00ff00", "" } }, { "fontBgColor", { "yellow", "" } }, { "antialias", { "none", "gray", "subpixel", "" } },
    { "background", { "red", "rgba(1,2,3,0.5)", "" } }, { "transparency", { "0.5", "50%", "100%", "" } }, { "visible", { "false", "true", "" } }, { "zIndex", { "3", "-1", "" } }, { "zOrder", { "3", "-1", "" } }, { "left", { "4", "25%", "-3", "" } }, { "width", { "0", "5", "150%", "" } }, { "height", { "0", "50%", "" } }, { "right", { "3", "" } }, { "bottom", { "10%", "" } }, { "bounds", { "1,2,3,4" } }, { "location", { "50%,0" } }, { "size", { "5,5" } }, { "duration", { "1s", "indefinite", "" } }, { "explicitDur", { "0.2s" } }, { "focusIndex", { "1", "2", "" } }, { "focusBorderColor", { "blue", "" } }, { "focusBorderWidth", { "3", "" } }, { "focusBorderTransparency", { "50%", "" } }, { "debug", { "true", "false", "" } }, { "uri", { "x.zzz", "" } }, { "transIn", { "", "{type='fade',dur='1s'}" } }, { "other", { "1", "" } } };
  for (auto &x : PVS) for (auto &v : x.second) X->push_back ({ x.first, v });
  uint64_t nx = X->size (); static const V KM = { "", " src='t.txt'", " src='i.png'", " type='application/x-ginga-settings'" }, HOW = { "declared", "set", "in half a second", "set, then another value" };
  sp.families.push_back ({ "every property value on every kind of media, drawn", nx * 4 * 4, [=] (uint64_t i, Rep &rep) {
      Dec d (i); auto &x = (*X)[d.next (nx)]; int k = d.next (4), how = d.next (4); if (x.n == "transIn" || (x.n == "uri" && k) || (k == 3 && how == 2)) return;
      vf::write_file (Play::dir () + "/t.txt", "some words\nand \xc3\xa9\n"); static bool once = false; if (!once) { once = true; cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, 4, 2); cairo_t *cr = cairo_create (s); cairo_set_source_rgb (cr, 0, 1, 0); cairo_paint (cr); cairo_destroy (cr); cairo_surface_write_to_png (s, (Play::dir () + "/i.png").c_str ()); cairo_surface_destroy (s); }
      S t = doc ((k == 3 ? S () : S ("<port id='p' component='m'/>")) + "<port id='q' component='n'/>" + medium ("m", (how == 0 && x.v != "" ? prop (x.n, x.v) : S ()) + (x.n == "width" ? S () : prop ("width", "14")), KM[k]) + medium ("n", "")); rep.say (t); rep.nontrivial = true;
      Play p (t, 24, 18); if (!p.started) { rep.fail ("harness", p.err); return; } p.draw (); Object *m = p.doc ()->getObjectByIdOrAlias ("m"); if (!m) { rep.fail ("harness", "no m"); return; } if (how) m->setProperty (x.n, x.v, how == 2 ? GINGA_SECOND / 2 : 0); p.draw (); if (how == 3) m->setProperty (x.n, (*X)[(i + 1) % nx].n == x.n ? (*X)[(i + 1) % nx].v : S ()); p.tick (.25); p.draw (); p.f->sendKey ("ENTER", true); p.tick (.5); p.resize (30, 18); Pic q = p.draw (); rep.steps += 4; rep.state (p.states () + fmt ("%llx", (unsigned long long) vf::hash (S ((char *) q.p.data (), q.p.size () * 4)))); if (i & 1) p.act ("m@lambda", Event::STOP); },
    [=] (uint64_t i) { Dec d (i); auto &x = (*X)[d.next (nx)]; int k = d.next (4); return x.n + "='" + x.v + "' " + HOW[d.next (4)] + ", media" + KM[k]; } });
}
#endif
