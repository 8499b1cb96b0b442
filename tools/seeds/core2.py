CONN = r'''
static string cc (const string &id, const string &c, const string &a) { return "<causalConnector id='" + id + "'><simpleCondition " + c + "/><simpleAction " + a + "/></causalConnector>"; }
'''
seed("c03-no-ports", "C03", "lib/Context.cpp", (
"""  else if (_awakeChildren == 0)
    {
""", """  else if (_awakeChildren == 0 && _ports.size () > 0)
    {
"""), "a nested context without ports, started by a link to its content", "such a context goes on although nothing in it is awake", CONN + r'''
void demo () {
  Play p (ncl ("<port id='p' component='n'/><media id='n'/><context id='c'><media id='m'><property name='explicitDur' value='1s'/></media></context>"));
  p.tick (0); p.tick (0); p.act ("m", Event::START);
  CHECK ("c occurring", p.st ("c") == "o");
  p.tick (2); p.tick (.1); p.tick (.1);
  CHECK ("m ended", p.st ("m") == "s"); CHECK ("c ended", p.st ("c") == "s");
}
''')
seed("c04-port-event", "C04", "lib/Document.cpp", (
"""                  if (port->getObject () == evt->getObject ())
                    {
""", """                  if (port == evt)
                    {
"""), "a link of an outer context conditioned by an event of another type of the object a port leads to", "links on selections reached through a port are not triggered", CONN + r'''
void demo () {
  Play p (ncl ("<port id='p' component='c'/><port id='z' component='n'/><media id='n'/><media id='t'/><context id='c'><port id='p1' component='m'/><media id='m'/></context>"
    "<link xconnector='k'><bind role='onSelection' component='c' interface='p1'><bindParam name='key' value='RED'/></bind><bind role='start' component='t'/></link>",
    "<connectorBase>" + cc ("k", "role='onSelection' key='$key'", "role='start'") + "</connectorBase>"));
  p.tick (0); p.tick (0); p.key ("RED");
  CHECK ("t started", p.st ("t") == "o");
}
''')
seed("c04-port-chain", "C04", "lib/Document.cpp", (
"""                      stack.insert (stack.end (), ret.begin (), ret.end ());
                      seen.insert (ctx_grandparent);
                      ported = true;
                      break;
                    }
                }
              ctx_parent = ctx_grandparent;
""", """                      stack.insert (stack.end (), ret.begin (), ret.end ());
                      seen.insert (ctx_grandparent);
                      ported = true;
                      break;
                    }
                }
              if (ctx_grandparent->getPorts ()->size () > 1)
                ported = false;
              ctx_parent = ctx_grandparent;
"""), "a chain of ports over three contexts, the middle one with two ports", "links of the outermost context are not triggered", CONN + r'''
void demo () {
  Play p (ncl ("<port id='p' component='c'/><port id='z' component='n'/><media id='n'/><media id='t'/><context id='c'><port id='p0' component='x'/><port id='p1' component='d' interface='p2'/><media id='x'/><context id='d'><port id='p2' component='m'/><media id='m'/></context></context>"
    "<link xconnector='k'><bind role='onEnd' component='c' interface='p1'/><bind role='start' component='t'/></link>",
    "<connectorBase>" + cc ("k", "role='onEnd'", "role='start'") + "</connectorBase>"));
  p.tick (0); p.tick (0); p.tick (0); p.act ("m", Event::START);
  CHECK ("m occurring", p.st ("m") == "o"); p.act ("m", Event::STOP);
  CHECK ("t started", p.st ("t") == "o");
}
''')
seed("c04-every-condition", "C04", "lib/Document.cpp", (
"""          if (pred != nullptr && !this->evalPredicate (pred))
            continue;
""", """          if (pred != nullptr && !this->evalPredicate (pred))
            break;
"""), "a link with two conditions on the same event, the first of which has an assessment that fails", "the second condition is not tried", CONN + r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><port id='z' component='n'/><media id='n'/><media id='t'/><media id='m'><property name='x' value='1'/></media>"
    "<link xconnector='k'><bind role='onBegin' component='n'/><bind role='t' component='m' interface='x'/><bind role='onEnd' component='m'/><bind role='start' component='t'/><bind role='again' component='m'/></link>",
    "<connectorBase><causalConnector id='k'><compoundCondition operator='or'><simpleCondition role='onBegin'/><compoundCondition operator='and'><simpleCondition role='onEnd'/><assessmentStatement comparator='eq'><attributeAssessment role='t'/><valueAssessment value='2'/></assessmentStatement></compoundCondition><simpleCondition role='again' eventType='presentation' transition='stops'/></compoundCondition><simpleAction role='start'/></causalConnector></connectorBase>"));
  p.tick (0); p.act ("t", Event::STOP); p.act ("m", Event::STOP);
  CHECK ("t started", p.st ("t") == "o");
}
''')
seed("c05-delay-on-target", "C05", "lib/Document.cpp", (
"""                  ctx->addDelayedAction (next_evt, next_act.transition,
""", """                  (next_obj->isSleeping () ? ctx : next_obj)
                      ->addDelayedAction (next_evt, next_act.transition,
"""), "a delayed action on an awake object which ends, or is paused, before the action is due", "the pending action goes with its target", CONN + r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><port id='z' component='n'/><media id='n'/><media id='m'/>"
    "<link xconnector='k'><bind role='onBegin' component='n'/><bind role='stop' component='m'/></link>",
    "<connectorBase>" + cc ("k", "role='onBegin'", "role='stop' delay='2s'") + "</connectorBase>"));
  p.tick (0); p.tick (.5); p.act ("m", Event::PAUSE); p.tick (1); p.tick (1); p.tick (.1);
  CHECK ("m stopped while paused", p.st ("m") == "s");
}
''')
seed("c06-empty-anchor", "C06", "lib/Media.cpp", (
"""                      this->addDelayedAction (e, Event::STOP, "", end);
                    }
                }
""", """                      if (end > begin)
                        this->addDelayedAction (e, Event::STOP, "", end);
                    }
                }
"""), "an anchor that ends when it begins", "the anchor never ends", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'><area id='a' begin='1s' end='1s'/></media>"));
  p.tick (0); p.tick (1.5);
  CHECK ("a over", p.st ("m", "a") == "s");
}
''')
seed("c06-anchor-past-end", "C06", "lib/Media.cpp", (
"""                      this->addDelayedAction (e, Event::START, "", begin);
                      this->addDelayedAction (e, Event::STOP, "", end);
""", """                      Time dur = _player->getDuration ();
                      this->addDelayedAction (e, Event::START, "", begin);
                      if (!GINGA_TIME_IS_VALID (dur) || end <= dur)
                        this->addDelayedAction (e, Event::STOP, "", end);
"""), "an anchor that ends after the declared duration of its media, which is extended while playing", "the anchor does not end at its time", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'><area id='a' begin='1s' end='3s'/><property name='explicitDur' value='2s'/></media>"));
  p.tick (0); p.tick (1.5); CHECK ("a", p.st ("m", "a") == "o");
  p.set ("m", "explicitDur", "9s"); p.tick (1); p.tick (1);
  CHECK ("m goes on", p.st ("m") == "o"); CHECK ("a over", p.st ("m", "a") == "s");
}
''')
seed("c07-last-dot", "C07", "lib/Document.cpp", (
"""  if (ref[0] != '$' || (i = ref.find ('.')) == string::npos)
""", """  if (ref[0] != '$' || (i = ref.rfind ('.')) == string::npos)
"""), "an assessment over a property whose name has a dot", "the property is not found", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'><property name='a.b' value='7'/></media>"));
  p.tick (0); string v = "-"; bool r = p.d ()->evalPropertyRef ("$m.a.b", &v);
  CHECK ("found", r && v == "7");
  Predicate q (Predicate::ATOM); q.setTest ("$m.a.b", Predicate::EQ, "7"); CHECK ("holds", p.d ()->evalPredicate (&q));
}
''')
seed("c08-unmapped-refuses", "C08", "lib/Switch.cpp", (
"""              if (selected_evt == nullptr)
                continue;

              if (_doc->evalPredicate (pred))
                {
""", """              if (_doc->evalPredicate (pred))
                {
                  if (selected_evt == nullptr)
                    return false;
"""), "a switch started through a switchPort while an earlier rule of a component the port does not map holds", "the start is refused", r'''
void demo () {
  Play p (ncl ("<media id='st' type='application/x-ginga-settings'><property name='v' value='1'/></media><port id='p' component='s' interface='sp'/><port id='z' component='n'/><media id='n'/><switch id='s'><switchPort id='sp'><mapping component='b'/></switchPort><bindRule constituent='a' rule='r'/><bindRule constituent='b' rule='r'/><media id='a'/><media id='b'/></switch>",
    "<ruleBase><rule id='r' var='v' comparator='eq' value='1'/></ruleBase>"));
  p.tick (0); p.tick (0);
  CHECK ("b", p.st ("b") == "o"); CHECK ("a", p.st ("a") == "s"); CHECK ("s", p.st ("s", "sp") == "o");
}
''')
seed("c09-context-duration", "C09", "lib/Context.cpp", (
"""                _doc->evalPropertyRef (s, &s);
                dur = ginga::parse_time (s);
""", """                if (s != "" && s[0] != '$')
                  dur = ginga::parse_time (s);
"""), "an attribution to a property of a context with a duration taken from a property", "the attribution has no duration", r'''
void demo () {
  Play p (ncl ("<property name='x' value='0'/><port id='p' component='m'/><media id='m'><property name='d' value='2s'/></media>"));
  p.tick (0); Action a; a.event = p.ev (Event::ATTRIBUTION, "", "x"); a.transition = Event::START; a.predicate = nullptr; a.value = "5"; a.duration = "$m.d"; p.d ()->evalAction (a);
  p.tick (1); CHECK ("lasts", p.at ("", "x") == "o"); p.tick (1.5); CHECK ("over", p.at ("", "x") == "s");
}
''')
seed("c09-same-value", "C09", "lib/Media.cpp", (
"""              this->setProperty (name, value, dur);
              this->addDelayedAction (evt, Event::STOP, value, dur);
""", """              bool changes = dur > 0 || this->getProperty (name) != value;
              this->setProperty (name, value, dur);
              if (changes)
                this->addDelayedAction (evt, Event::STOP, value, dur);
"""), "an attribution of the value the property already has", "the attribution never ends", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'><property name='x' value='5'/></media>"));
  p.tick (0); p.set ("m", "x", "5"); p.tick (.1); p.tick (.1); CHECK ("over", p.at ("m", "x") == "s");
}
''')
seed("c10-key-prefix", "C10", "lib/Media.cpp", (
"""            || (expected != "" && key == expected)))
""", """            || (expected != "" && xstrhasprefix (key, expected))))
"""), "two keys, one of which is the beginning of the other", "a longer key selects what expects the shorter one", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'/><media id='t'/><link xconnector='k'><bind role='onSelection' component='m'/><bind role='start' component='t'/></link>",
    "<connectorBase><causalConnector id='k'><simpleCondition role='onSelection' key='1'/><simpleAction role='start'/></causalConnector></connectorBase>"));
  p.tick (0); p.key ("10"); CHECK ("not selected", p.st ("t") == "s"); p.key ("1"); CHECK ("selected", p.st ("t") == "o");
}
''')
seed("c10-release-once", "C10", "lib/Media.cpp", (
"""  // Run collected events.
  for (Event *evt : buf)
    _doc->evalAction (evt, press ? Event::START : Event::STOP);
""", """  // Run collected events.
  for (Event *evt : buf)
    if (_doc->evalAction (evt, press ? Event::START : Event::STOP) == 0)
      break;
"""), "a media with two selection events for one key, the first of which is already occurring", "the second selection is not started", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'/><media id='t'/><link xconnector='k'><bind role='onSelection' component='m'/><bind role='start' component='t'/></link><link xconnector='k2'><bind role='onSelection' component='m'/><bind role='start' component='t'/></link>",
    "<connectorBase><causalConnector id='k'><simpleCondition role='onSelection'/><simpleAction role='start'/></causalConnector><causalConnector id='k2'><simpleCondition role='onSelection' key='ENTER'/><simpleAction role='start'/></causalConnector></connectorBase>"));
  p.tick (0); p.d ()->getSettings ()->scheduleFocusUpdate ("1"); p.o ("m")->setProperty ("focusIndex", "1"); p.tick (.1); 
  Event *a = p.ev (Event::SELECTION, "m", ""), *b = p.ev (Event::SELECTION, "m", "ENTER");
  CHECK ("events", a && b);
  for (auto one : { a, b }) { auto two = one == a ? b : a; p.d ()->evalAction (one, Event::START); p.key ("ENTER", true); CHECK ("both", Play::s (two) == "o"); p.key ("ENTER", false); CHECK ("released", Play::s (a) == "s" && Play::s (b) == "s"); }
}
''')
seed("c11-index-unknown", "C11", "lib/MediaSettings.cpp", (
"""  if (index != "")
    {
      next = index;
    }
""", """  if (index != "" && index != Player::getCurrentFocus ())
    {
      next = index;
    }
"""), "a move of the focus to the index that already has it", "the focus jumps to the lowest index", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><port id='q' component='n'/><media id='m'><property name='focusIndex' value='1'/></media><media id='n'><property name='focusIndex' value='2'/><property name='moveUp' value='2'/></media>"));
  p.tick (0); p.tick (0); p.tick (0); p.set ("__settings__", "service.currentFocus", "2"); p.tick (0);
  CHECK ("focus 2", p.prop ("__settings__", "service.currentFocus") == "2");
  p.key ("CURSOR_UP"); p.tick (0); p.tick (0);
  CHECK ("focus still 2", p.prop ("__settings__", "service.currentFocus") == "2");
}
''')
seed("c11-two-moves", "C11", "lib/MediaSettings.cpp", (
"""  _hasNextFocus = true;
  _nextFocus = next;
""", """  if (!_hasNextFocus || next != "")
    _nextFocus = next;
  _hasNextFocus = true;
"""), "a focus move and, before the next tick, the start of a media with a focus index", "the move wins over the later update", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><port id='q' component='n'/><media id='m'><property name='focusIndex' value='1'/><property name='moveUp' value='2'/></media><media id='n'><property name='focusIndex' value='2'/></media><media id='l'><property name='focusIndex' value='0'/></media>"));
  p.tick (0); p.tick (0); p.tick (0);
  CHECK ("focus 1", p.prop ("__settings__", "service.currentFocus") == "1");
  p.key ("CURSOR_UP"); p.act ("l", Event::START); p.tick (0); p.tick (0);
  CHECK ("focus 0", p.prop ("__settings__", "service.currentFocus") == "0");
}
''')
seed("c01-restart-paused-anchor", "C01", "lib/Media.cpp", (
"""            else if (evt->isLambda () && evt->getState () == Event::PAUSED)
              {
""", """            else if (!evt->isLambda () && evt->getState () == Event::PAUSED)
              return false;
            else if (evt->isLambda () && evt->getState () == Event::PAUSED)
              {
"""), "a start requested for an anchor that is paused", "the start is refused", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'><area id='a' begin='1s' end='9s'/></media>"));
  p.tick (0); p.tick (2); p.act ("m", Event::PAUSE, "a"); CHECK ("paused", p.st ("m", "a") == "p");
  CHECK ("accepted", p.act ("m", Event::START, "a") == 1); CHECK ("occurring", p.st ("m", "a") == "o");
}
''')
seed("c12-options-keep", "C12", "lib/Formatter.cpp", (
"""  if (value == "")
    self->_background = { 0., 0., 0., 0. };
  else
    self->_background""", """  if (value == "" && self->_state == GINGA_STATE_STOPPED)
    self->_background = { 0., 0., 0., 0. };
  else if (value != "")
    self->_background"""), "the background option reset while a document plays", "the former background stays", r'''
#include <cairo.h>
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'/>"), 4, 4); p.tick (0);
  auto px = [&] { cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_RGB24, 4, 4); cairo_t *cr = cairo_create (s); p.f->redraw (cr); cairo_destroy (cr); cairo_surface_flush (s); uint32_t v = *(uint32_t *) cairo_image_surface_get_data (s) & 0xffffff; cairo_surface_destroy (s); return v; };
  p.f->setOptionString ("background", "red"); CHECK ("red", px () == 0xff0000); p.f->setOptionString ("background", ""); CHECK ("black", px () == 0);
}
''')
