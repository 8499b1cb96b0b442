seed("c06-shared-end", "C06", "lib/Media.cpp", (
"""                            || (end != GINGA_TIME_NONE && it->second > end))
""", """                            || (end != GINGA_TIME_NONE && it->second >= end))
"""), "a media started through an anchor, and a tick at exactly that anchor's end", "the anchor (and any other ending then) is still occurring", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m' interface='a'/><port id='z' component='n'/><media id='n'/><media id='m'><area id='a' begin='1s' end='3s'/><area id='b' begin='2s' end='3s'/></media>"));
  p.tick (0); CHECK ("a", p.st ("m", "a") == "o"); p.tick (1); CHECK ("b", p.st ("m", "b") == "o"); p.tick (1); CHECK ("b over", p.st ("m", "b") == "s");
}
''')
seed("c10-paused-key", "C10", "lib/Media.cpp", (
"""  list<Event *> buf;

  if (unlikely (this->isSleeping ()))
""", """  list<Event *> buf;

  if (unlikely (!this->isOccurring ()))
"""), "a key pressed or released while the media is paused", "paused (awake) media get no keys", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><port id='z' component='n'/><media id='n'/><media id='m'/><media id='t'/><link xconnector='k'><bind role='onSelection' component='m'/><bind role='start' component='t'/></link>",
    "<connectorBase><causalConnector id='k'><simpleCondition role='onSelection' key='RED'/><simpleAction role='start'/></causalConnector></connectorBase>"));
  p.tick (0); p.act ("m", Event::PAUSE); p.key ("RED"); CHECK ("selected", p.st ("t") == "o");
}
''')
seed("c11-timed-focus", "C11", "lib/MediaSettings.cpp", (
"""  if (name == "service.currentFocus")
    Player""", """  if (name == "service.currentFocus" && dur == 0)
    Player"""), "service.currentFocus assigned by a set action with a duration", "the focus does not move", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><port id='p2' component='n'/><media id='n'><property name='focusIndex' value='2'/></media><media id='m'><property name='focusIndex' value='1'/></media>"));
  p.tick (0); p.tick (0); CHECK ("m", cast (Media *, p.o ("m"))->isFocused ());
  Action a; a.event = p.ev (Event::ATTRIBUTION, "__settings__", "service.currentFocus"); a.event->transition (Event::STOP); a.transition = Event::START; a.predicate = nullptr; a.value = "2"; a.duration = "1s"; p.d ()->evalAction (a);
  p.tick (2); CHECK ("n", cast (Media *, p.o ("n"))->isFocused ());
}
''')
seed("c05-abort-keeps", "C05", "lib/Context.cpp", (
"""          TRACE ("abort %s at %" GINGA_TIME_FORMAT,
                 evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
          Object::doStop ();
""", """          {
            TRACE ("abort %s at %" GINGA_TIME_FORMAT,
                   evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
            auto pending = _delayed;
            Object::doStop ();
            _delayed = pending;
          }
"""), "a context aborted and started again while an action is pending", "the action is performed by the new run", r'''
void demo () {
  Play p (ncl ("<port id='p' component='c'/><port id='z' component='n'/><media id='n'/><context id='c'><port id='q' component='m'/><media id='m'/><media id='t'/><link xconnector='k'><bind role='onEnd' component='m'/><bind role='start' component='t'/></link></context>",
    "<connectorBase><causalConnector id='k'><simpleCondition role='onEnd'/><simpleAction role='start' delay='5s'/></causalConnector></connectorBase>"));
  p.tick (0); p.tick (0); p.act ("t", Event::START); p.act ("m", Event::STOP); p.act ("c", Event::ABORT); p.act ("c", Event::START); p.tick (0); p.tick (6);
  CHECK ("not started", p.st ("t") == "s");
}
''')
seed("c12-key-at-end", "C12", "lib/Formatter.cpp", (
"""  _GINGA_CHECK_EOS (this);
  if (_state != GINGA_STATE_PLAYING)
    return false;

  // IMPORTANT: When""", """  _GINGA_CHECK_EOS (this);
  if (_state != GINGA_STATE_PLAYING)
    return true;

  // IMPORTANT: When"""), "a key that is the first call after the presentation ended", "it is reported as accepted", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'/>")); p.tick (0); p.act ("m", Event::STOP); p.tick (1);
  CHECK ("refused", !p.f->sendKey ("RED", true));
}
''')
seed("c19-translucent-background", "C19", "lib/Formatter.cpp", (
"""  if (_background.alpha > 0)
    {
      if (_opts.opengl)""", """  if (_background.alpha >= 1)
    {
      if (_opts.opengl)"""), "a translucent background option", "it is not drawn", r'''
#include <cairo.h>
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'/>"), 4, 4); p.tick (0);
  auto px = [&] { cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_RGB24, 4, 4); cairo_t *cr = cairo_create (s); p.f->redraw (cr); cairo_destroy (cr); cairo_surface_flush (s); uint32_t v = *(uint32_t *) cairo_image_surface_get_data (s) & 0xffffff; cairo_surface_destroy (s); return v; };
  p.f->setOptionString ("background", "rgba(255,0,0,0.5)"); CHECK ("reddish", (px () >> 16) > 100);
}
''')
seed("c25-zorder-default", "C25", "lib/Player.cpp", (
"""  { "zOrder", { Player::PROP_Z_ORDER, true, "0" } },""", """  { "zOrder", { Player::PROP_Z_ORDER, false, "0" } },"""), "two media of the same zIndex without zOrder, in memory used before", "the order of drawing depends on the contents of fresh memory", r'''
#include <malloc.h>
void demo () {
  for (int fill : { 0x11, 0xee }) { mallopt (M_PERTURB, fill); Play p (ncl ("<port id='p' component='m'/><media id='m'/>")); p.tick (0); int z = -1, o = -1; cast (Media *, p.o ("m"))->getZ (&z, &o); CHECK ("zOrder 0", o == 0); }
}
''')
seed("c02-paused-restart", "C02", "lib/Context.cpp", (
"""          for (auto port : _ports)
            {
              if (port->getType () == Event::PRESENTATION)
                this->addDelayedAction""", """          for (auto port : _ports)
            {
              if (port->getType () == Event::PRESENTATION && port->getState () == Event::SLEEPING)
                this->addDelayedAction"""), "a paused context started again", "its paused content is not started with it", r'''
void demo () {
  Play p (ncl ("<port id='p' component='c'/><port id='z' component='n'/><media id='n'/><context id='c'><port id='q' component='m'/><media id='m'/></context>"));
  p.tick (0); p.tick (0); CHECK ("m", p.st ("m") == "o"); p.act ("c", Event::PAUSE); CHECK ("paused", p.st ("m") == "p"); p.act ("c", Event::START); p.tick (1); CHECK ("m again", p.st ("m") == "o");
}
''')
seed("c04-stopped-by-itself", "C04", "lib/Document.cpp", (
"""      if (!evt->transition (act.transition))
        continue;

      n++;
""", """      if (!evt->transition (act.transition))
        {
          if (evt->isLambda () && act.transition == Event::STOP && evt->getParameter ("fromport", nullptr))
            break;
          continue;
        }

      n++;
"""), "a stop refused by a context that was once started through something inside it", "the remaining actions of the cascade are dropped", r'''
void demo () {
  Play p (ncl ("<port id='p' component='k'/><port id='z' component='n'/><media id='n'/><media id='k'/><media id='t'/><context id='c'><media id='m'/></context><link xconnector='l'><bind role='onEnd' component='k'/><bind role='stop' component='c'/><bind role='start' component='t'/></link>",
    "<connectorBase><causalConnector id='l'><simpleCondition role='onEnd'/><compoundAction operator='seq'><simpleAction role='stop'/><simpleAction role='start'/></compoundAction></causalConnector></connectorBase>"));
  p.tick (0); p.act ("m", Event::START); p.act ("c", Event::STOP); p.act ("k", Event::STOP); CHECK ("t", p.st ("t") == "o");
}
''')
