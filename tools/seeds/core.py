seed("c01-abort-paused", "C01", "lib/Event.cpp", (
"""    case Event::STOP: // fall through
    case Event::ABORT:
      if (curr == Event::SLEEPING)
        return false;
      next = Event::SLEEPING;
      break;
""", """    case Event::STOP:
      if (curr == Event::SLEEPING)
        return false;
      next = Event::SLEEPING;
      break;
    case Event::ABORT:
      if (curr != Event::OCCURRING)
        return false;
      next = Event::SLEEPING;
      break;
"""), "an abort requested for an event that is paused", "paused events refuse to be aborted", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'/><media id='n'/><port id='q' component='n'/>"));
  p.tick (0); p.act ("m", Event::PAUSE);
  CHECK ("m paused", p.st ("m") == "p");
  CHECK ("abort accepted", p.act ("m", Event::ABORT) == 1);
  CHECK ("m sleeping", p.st ("m") == "s");
}
''')
seed("c02-abort-skips-paused", "C02", "lib/Context.cpp", (
"""              lambda->transition (Event::ABORT);
""", """              if (child->isOccurring ())
                lambda->transition (Event::ABORT);
"""), "a context aborted while one of its children was paused on its own", "paused content stays awake when its context is aborted", r'''
void demo () {
  Play p (ncl ("<port id='p' component='c'/><port id='z' component='n'/><media id='n'/><context id='c'><port id='p1' component='m'/><media id='m'/></context>"));
  p.tick (0); p.tick (0);
  CHECK ("m occurring", p.st ("m") == "o");
  p.act ("m", Event::PAUSE); p.act ("c", Event::ABORT);
  CHECK ("c sleeping", p.st ("c") == "s"); CHECK ("m sleeping", p.st ("m") == "s");
}
''')
seed("c03-waits-for-delayed", "C03", "lib/Context.cpp", (
"""  else if (_awakeChildren == 0)
    {
""", """  else if (_awakeChildren == 0 && _delayed.empty ())
    {
"""), "the last child of a nested context ends while a delayed action of the context is pending", "the context goes on although nothing in it is awake, and its pending action still runs", r'''
void demo () {
  Play p (ncl ("<port id='p' component='c'/><port id='z' component='n'/><media id='n'/><context id='c'><port id='p1' component='m'/><media id='m'><property name='explicitDur' value='1s'/></media><media id='q'/>"
    "<link xconnector='k'><bind role='onEnd' component='m'/><bind role='start' component='q'/></link></context>",
    "<connectorBase><causalConnector id='k'><simpleCondition role='onEnd'/><simpleAction role='start' delay='3s'/></causalConnector></connectorBase>"));
  p.tick (0); p.tick (0); p.tick (2); p.tick (0.1); p.tick (0.1);
  CHECK ("m ended", p.st ("m") == "s"); CHECK ("c ended", p.st ("c") == "s");
  p.tick (4); CHECK ("q never started", p.st ("q") == "s");
}
''')
seed("c03-stop-twice", "C03", "lib/Object.cpp", (
"""  _time = GINGA_TIME_NONE;
  for (auto evt : _events)
    evt->reset ();
  _delayed.clear ();
""", """  for (auto evt : _events)
    evt->reset ();
  _delayed.clear ();
"""), "a media that is stopped and started again (its clock is not reset, so it is taken for paused)", "a restarted media does not keep its context awake", r'''
void demo () {
  Play p (ncl ("<port id='p' component='c'/><port id='z' component='n'/><media id='n'/><context id='c'><port id='p1' component='m'/><media id='m'/><port id='p2' component='o'/><media id='o'/></context>"));
  p.tick (0); p.tick (0);
  p.act ("m", Event::STOP); p.act ("m", Event::START); p.act ("o", Event::STOP);
  p.tick (1); p.tick (1);
  CHECK ("m plays", p.st ("m") == "o"); CHECK ("c goes on", p.st ("c") == "o");
}
''')
seed("c04-refused-drops-rest", "C04", "lib/Document.cpp", (
"""      if (!evt->transition (act.transition))
        continue;
""", """      if (!evt->transition (act.transition))
        break;
"""), "a link with several actions one of which is refused", "the actions after a refused one are dropped", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'/><media id='a'/><media id='b'/>"
    "<link xconnector='k'><bind role='onPause' component='m'/><bind role='start' component='a'/><bind role='start' component='m'/><bind role='start' component='b'/></link>"
    "<link xconnector='j'><bind role='onPause' component='m'/><bind role='resume' component='a'/><bind role='start' component='n'/></link><media id='n'/>",
    "<connectorBase><causalConnector id='k'><simpleCondition role='onPause'/><compoundAction><simpleAction role='start' max='3'/></compoundAction></causalConnector>"
    "<causalConnector id='j'><simpleCondition role='onPause'/><compoundAction><simpleAction role='resume'/><simpleAction role='start'/></compoundAction></causalConnector></connectorBase>"));
  p.tick (0); p.act ("m", Event::PAUSE);
  CHECK ("a", p.st ("a") == "o"); CHECK ("b", p.st ("b") == "o"); CHECK ("n", p.st ("n") == "o");
}
''')
seed("c05-due-order", "C05", "lib/Object.cpp", (
"""  _delayed.push_back (std::make_pair (act, _time + delay));
""", """  // Keep the list sorted by due time.
  auto pos = _delayed.begin ();
  while (pos != _delayed.end () && pos->second < _time + delay)
    ++pos;
  _delayed.insert (pos, std::make_pair (act, _time + delay));
"""), "two delayed actions due at the same time", "actions due at the same tick run in reverse trigger order", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'/><media id='n'><property name='x' value='0'/></media>"
    "<link xconnector='k'><bind role='onPause' component='m'/><bind role='set' component='n' interface='x'><bindParam name='v' value='first'/></bind></link>"
    "<link xconnector='k'><bind role='onPause' component='m'/><bind role='set' component='n' interface='x'><bindParam name='v' value='second'/></bind></link>",
    "<connectorBase><causalConnector id='k'><connectorParam name='v'/><simpleCondition role='onPause'/><simpleAction role='set' value='$v' delay='1s'/></causalConnector></connectorBase>"));
  p.tick (0); p.tick (0); p.act ("m", Event::PAUSE); p.tick (1); p.tick (0.1);
  CHECK ("the later one wins", p.prop ("n", "x") == "second");
}
''')
seed("c06-end-inclusive", "C06", "lib/Media.cpp", (
"""          && _time > dur))
""", """          && _time >= dur))
"""), "a tick that lands exactly on the explicit duration", "the media ends a tick too early", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><port id='q' component='n'/><media id='n'/><media id='m'><property name='explicitDur' value='2s'/></media>"));
  p.tick (0); p.tick (1); p.tick (1);
  CHECK ("at 2s still playing", p.st ("m") == "o");
  p.tick (0.5); CHECK ("ended after 2s", p.st ("m") == "s");
}
''')
seed("c06-anchor-seek", "C06", "lib/Media.cpp", (
"""                        if (it->second == GINGA_TIME_NONE
                            || it->second < begin
""", """                        if (it->second == GINGA_TIME_NONE
                            || it->second <= begin
"""), "a media started through an anchor while another anchor begins exactly where that one does", "the other anchor is skipped", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m' interface='a'/><media id='m'><area id='a' begin='2s' end='6s'/><area id='b' begin='2s' end='4s'/></media>"));
  p.tick (0); p.tick (0); p.tick (0.5);
  CHECK ("a", p.st ("m", "a") == "o"); CHECK ("b", p.st ("m", "b") == "o");
  p.tick (2); CHECK ("b over", p.st ("m", "b") == "s");
}
''')
seed("c07-clone-shallow", "C07", "lib/Predicate.cpp", (
"""      for (auto child : _children)
        clone->addChild (child->clone ());
""", """      for (auto child : _children)
        {
          Predicate *copy = child->clone ();
          if (copy->getType () == _type)
            {
              // Flatten nested connectives of the same type.
              for (auto grandchild : copy->_children)
                {
                  grandchild->_parent = nullptr;
                  clone->addChild (grandchild);
                }
              copy->_children.clear ();
              delete copy;
            }
          else
            clone->addChild (copy);
        }
"""), "the copy of a doubly negated predicate", "the copy of not(not(p)) evaluates to not(p)", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'><property name='x' value='1'/></media>"));
  Predicate *a = new Predicate (Predicate::ATOM), *n = new Predicate (Predicate::NEGATION), *nn = new Predicate (Predicate::NEGATION);
  a->setTest ("$m.x", Predicate::EQ, "1"); n->addChild (a); nn->addChild (n);
  Predicate *c = nn->clone ();
  CHECK ("value", p.d ()->evalPredicate (nn)); CHECK ("copy", p.d ()->evalPredicate (c));
  delete nn; delete c;
}
''')
seed("c07-empty-right", "C07", "lib/Document.cpp", (
"""        if (right[0] == '$')
          {
            msg_right = right;
            if (this->evalPropertyRef (right, &right))
""", """        if (right[0] == '$' && left != "")
          {
            msg_right = right;
            if (this->evalPropertyRef (right, &right))
"""), "an atom whose left operand evaluates to the empty string and whose right one is a property reference", "the reference is compared literally", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'><property name='x' value='1'/></media>"));
  Predicate *a = new Predicate (Predicate::ATOM);
  a->setTest ("$m.unset", Predicate::EQ, "$m.alsounset");
  CHECK ("both unset: equal", p.d ()->evalPredicate (a));
  delete a;
}
''')
seed("c08-rule-after-refusal", "C08", "lib/Switch.cpp", (
"""                  else
                    return false;
                }
            }
          // Not found valid""", """                  else
                    continue;
                }
            }
          // Not found valid"""), "a switch started while the component of its first true rule is already running on its own",
"the switch passes over the first component whose rule holds and selects a later one", r'''
void demo () {
  Play p (ncl ("<port id='p' component='z'/><media id='z'/><switch id='s'><defaultComponent component='b'/>"
    "<bindRule constituent='a' rule='r'/><media id='a'/><media id='b'/></switch>",
    "<ruleBase><rule id='r' var='system.language' comparator='ne' value='xx'/></ruleBase>"));
  p.tick (0); p.act ("a", Event::START); CHECK ("a", p.st ("a") == "o");
  p.act ("s", Event::START); CHECK ("b not selected", p.st ("b") == "s");
}
''')
seed("c09-stale-duration", "C09", "lib/Document.cpp", (
"""      evt->setParameter ("duration", act.duration);
      if (evt->getType () == Event::ATTRIBUTION)
""", """      if (act.duration != "")
        evt->setParameter ("duration", act.duration);
      if (evt->getType () == Event::ATTRIBUTION)
"""), "an attribution with a duration followed by one without on the same property", "the second attribution inherits the first one's duration", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><port id='q' component='n'/><media id='n'/><media id='m'><property name='x' value='0'/></media>"
    "<link xconnector='k'><bind role='onPause' component='n'/><bind role='set' component='m' interface='x'/></link>",
    "<connectorBase><causalConnector id='k'><simpleCondition role='onPause'/><simpleAction role='set' value='5' duration='1s'/></causalConnector></connectorBase>"));
  p.tick (0); p.tick (0); p.act ("n", Event::PAUSE); CHECK ("first", p.at ("m", "x") == "o");
  p.tick (1.5); CHECK ("first over", p.at ("m", "x") == "s");
  p.set ("m", "x", "7"); p.tick (0.1); p.tick (0.1);
  CHECK ("second over at once", p.at ("m", "x") == "s");
}
''')
seed("c09-fragment-value", "C09", "lib/Document.cpp", (
"""  if (ref[0] != '$' || (i = ref.find ('.')) == string::npos)
""", """  if (ref[0] != '$' || (i = ref.rfind ('.')) == string::npos)
"""), "a reference to a property whose name contains a dot (service.currentFocus, system.x)", "such references are not resolved", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'><property name='x' value='0'/></media><media id='st' type='application/x-ginga-settings'><property name='system.lang' value='pt'/></media>"));
  p.tick (0); p.set ("m", "x", "$st.system.lang");
  CHECK ("resolved", p.prop ("m", "x") == "pt");
}
''')
seed("c10-release-needs-focus", "C10", "lib/Media.cpp", (
"""            || (expected != "" && key == expected)))
""", """            || (expected != "" && key == expected
                && (press || expected != "ENTER" || _player->isFocused ()))))
"""), "ENTER released after its press moved the focus away", "the selection never stops", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'><property name='focusIndex' value='1'/></media><port id='q' component='n'/><media id='n'><property name='focusIndex' value='2'/></media>"
    "<media id='st' type='application/x-ginga-settings'><property name='service.currentFocus'/></media>"
    "<link xconnector='k'><bind role='onSelection' component='m'><bindParam name='key' value='ENTER'/></bind><bind role='set' component='st' interface='service.currentFocus'/></link>",
    "<connectorBase><causalConnector id='k'><connectorParam name='key'/><simpleCondition role='onSelection' key='$key'/><simpleAction role='set' value='2'/></causalConnector></connectorBase>"));
  p.tick (0); p.tick (0); p.key ("ENTER"); CHECK ("pressed", p.sel ("m", "ENTER") == "o");
  p.key ("ENTER", false); CHECK ("released", p.sel ("m", "ENTER") == "s");
}
''')
seed("c11-paused-gets-focus", "C11", "lib/MediaSettings.cpp", (
"""          if (media->isOccurring ()
              && (i =""", """          if (!media->isSleeping ()
              && (i ="""), "a focusable media starts while one with a smaller index is paused", "the focus goes to the paused media", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'><property name='focusIndex' value='1'/></media><media id='n'><property name='focusIndex' value='2'/></media>"));
  p.tick (0); p.tick (0); p.act ("m", Event::PAUSE); p.act ("n", Event::START); p.tick (0.1); p.tick (0.1);
  CHECK ("n has the focus", dynamic_cast<Media *> (p.o ("n"))->isFocused ());
}
''')
seed("c12-eos-survives", "C12", "lib/Formatter.cpp", [(
"""  _eos = false;
  _lastTickTotal = 0;
""", """  _lastTickTotal = 0;
"""), ("""        (ginga)->setEOS (false);                                           \\
        g_assert ((ginga)->stop ());                                       \\
""", """        g_assert ((ginga)->stop ());                                       \\
""")], "a presentation started in a player after another one ended by itself", "the second presentation ends at once", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'><property name='explicitDur' value='1s'/></media>"));
  p.tick (0); p.tick (0); p.tick (1); p.tick (1); p.tick (1);
  CHECK ("ended", p.f->getState () == GINGA_STATE_STOPPED);
  string e; CHECK ("start again", p.f->start (put ("demo2.ncl", ncl ("<port id='p' component='m'/><media id='m'/>")), &e));
  CHECK ("tick accepted", p.tick (1)); CHECK ("plays", p.f->getState () == GINGA_STATE_PLAYING);
}
''')
seed("c12-resize-stopped", "C12", "lib/Formatter.cpp", (
"""  _opts.width = width;
  _opts.height = height;

  // This must be the first check.
  if (_state != GINGA_STATE_PLAYING)
    return;
""", """
  // This must be the first check.
  if (_state != GINGA_STATE_PLAYING)
    return;

  _opts.width = width;
  _opts.height = height;
"""), "a resize while stopped", "the new size is forgotten", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'/>"));
  p.f->stop (); p.f->resize (400, 300);
  CHECK ("width", p.f->getOptionInt ("width") == 400);
}
''')
seed("c21-first-context-only", "C21", "lib/Document.cpp", (
"""              ctx_parent = cast (Context *, alias.second);
""", """              ctx_parent = cast (Context *, obj->getAliases ()->front ().second);
"""), "one media referred to from two different contexts, with a link in the second", "links of every context but the first that refers to the object are never triggered", r"""
void demo () {
  Play p (ncl ("<port id='p' component='m'/><port id='pc' component='c'/><port id='pd' component='d'/><media id='m'/><context id='c'><port id='q' component='n'/><media id='n'/><media id='r1' refer='m'/></context>"
    "<context id='d'><port id='q2' component='n2'/><media id='n2'><property name='x' value='0'/></media><media id='r2' refer='m'/>"
    "<link xconnector='k'><bind role='onPause' component='r2'/><bind role='set' component='n2' interface='x'/></link></context>",
    "<connectorBase><causalConnector id='k'><simpleCondition role='onPause'/><simpleAction role='set' value='1'/></causalConnector></connectorBase>"));
  p.tick (0); p.tick (0); p.act ("m", Event::PAUSE);
  CHECK ("link fired", p.prop ("n2", "x") == "1");
}
""")
seed("c21-second-name-lost", "C21", "lib/Object.cpp", (
"""  auto alias_pair = make_pair (alias, parent);
  // _aliases.push_back (alias_pair);
""", """  auto alias_pair = make_pair (alias, parent);
  if (parent != nullptr)
    for (auto &curr : _aliases)
      if (curr.second == parent)
        return;
"""), "two references to one media in the same context, the second one used by name in a property reference", "the second name does not denote the object", r"""
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'><property name='x' value='4'/></media><media id='r1' refer='m'/><media id='r2' refer='m'/><media id='n'><property name='y' value='0'/></media>"));
  p.tick (0); p.set ("n", "y", "$r1.x"); CHECK ("r1", p.prop ("n", "y") == "4");
  p.set ("n", "y", ""); p.set ("n", "y", "$r2.x"); CHECK ("r2", p.prop ("n", "y") == "4");
}
""")
