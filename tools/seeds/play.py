PIC = r'''
#include <cairo.h>
static uint32_t pix (Play &p, int x, int y, int w = 100, int h = 100, std::vector<uint32_t> *all = nullptr)
{
  cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, w, h); cairo_t *c = cairo_create (s);
  p.f->redraw (c); cairo_destroy (c); cairo_surface_flush (s);
  uint32_t v = ((uint32_t *) (cairo_image_surface_get_data (s) + y * cairo_image_surface_get_stride (s)))[x];
  if (all) for (int j = 0; j < h; j++) for (int i = 0; i < w; i++) all->push_back (((uint32_t *) (cairo_image_surface_get_data (s) + j * cairo_image_surface_get_stride (s)))[i]);
  cairo_surface_destroy (s); return v & 0xffffff;
}
static string P (const string &n, const string &v) { return "<property name='" + n + "' value='" + v + "'/>"; }
static string one (const string &props, const string &attrs = "") { return ncl ("<port id='p' component='m'/><media id='m'" + attrs + ">" + props + "</media>"); }
static void anim (Play &p, const string &pr, const string &v, const string &dur) { Action a; a.event = p.ev (Event::ATTRIBUTION, "m", pr); a.transition = Event::START; a.predicate = nullptr; a.value = v; a.duration = dur; p.d ()->evalAction (a); }
'''
seed("c18-resize-top", "C18", "lib/Formatter.cpp", (
"""      UPDATE_IF_HAVE ("top");
      UPDATE_IF_HAVE ("left");
""", """      UPDATE_IF_HAVE ("left");
"""), "a resize while a media with a relative top plays", "the media keeps the top of the old screen", PIC + r'''
void demo () {
  Play p (one (P ("background", "red") + P ("top", "50%") + P ("left", "50%")), 100, 100); p.tick (0);
  CHECK ("drawn", pix (p, 50, 50) == 0xff0000);
  p.f->resize (40, 40); CHECK ("follows the screen", pix (p, 20, 20, 40, 40) == 0xff0000);
}
''')
seed("c19-z-difference", "C19", "lib/Formatter.cpp", (
"""  if (z1 < z2)
    return -1;
  if (z1 > z2)
    return 1;
  if (zo1 < zo2)
    return -1;
  if (zo1 > zo2)
    return 1;
  return 0;
""", """  if (z1 != z2)
    return z1 - z2;
  return zo1 - zo2;
"""), "zIndexes whose difference exceeds the range of int", "the media with the least zIndex is drawn on top", PIC + r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><port id='q' component='n'/><media id='m'>" + P ("background", "red") + P ("zIndex", "-2000000000") + "</media><media id='n'>" + P ("background", "blue") + P ("zIndex", "2000000000") + "</media>"), 100, 100); p.tick (0);
  CHECK ("the greater is on top", pix (p, 5, 5) == 0x0000ff);
}
''')
seed("c19-empty-either", "C19", "lib/Player.cpp", (
"""  if (!_prop.visible || !(_prop.rect.width > 0 && _prop.rect.height > 0))
""", """  if (!_prop.visible || !(_prop.rect.width > 0 || _prop.rect.height > 0))
"""), "an image of zero width but not zero height", "drawing it breaks the picture", PIC + r'''
void demo () {
  cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, 4, 2); cairo_surface_write_to_png (s, (string (getenv ("DEMO_TMP")) + "/i.png").c_str ()); cairo_surface_destroy (s);
  Play p (ncl ("<port id='p' component='m'/><port id='q' component='n'/><media id='m' src='i.png'>" + P ("width", "0") + "</media><media id='n'>" + P ("background", "blue") + P ("zIndex", "2") + "</media>"), 100, 100); p.tick (0);
  CHECK ("what is above it is drawn", pix (p, 5, 5) == 0x0000ff);
}
''')
seed("c28-stale-text", "C28", "lib/Player.cpp", (
"""            = ginga::parse_percent (value, height, 0, G_MAXINT);
        _dirty = true;

""", """            = ginga::parse_percent (value, height, 0, G_MAXINT);

"""), "a text media whose height is attributed while it plays", "the text rendered for the old height is stretched", PIC + r'''
void demo () {
  put ("t.txt", "A line of text\nand one more");
  std::vector<uint32_t> a, b;
  { Play p (one (P ("height", "50") + P ("width", "90") + P ("fontColor", "white"), " src='t.txt'"), 100, 100); p.tick (0); pix (p, 0, 0, 100, 100, &a); }
  { Play p (one (P ("height", "100") + P ("width", "90") + P ("fontColor", "white"), " src='t.txt'"), 100, 100); p.tick (0); pix (p, 0, 0); p.set ("m", "height", "50"); pix (p, 0, 0, 100, 100, &b); }
  CHECK ("as if declared so", a == b);
}
''')
seed("c19-paused-hidden", "C19", "lib/Media.cpp", (
"""  if (this->isSleeping () || _player == nullptr)
    return; // nothing to do
  _player->redraw (cr);
""", """  if (!this->isOccurring () || _player == nullptr)
    return; // nothing to do
  _player->redraw (cr);
"""), "a redraw while a media is paused", "paused media vanish", PIC + r'''
void demo () {
  Play p (one (P ("background", "red")), 100, 100); p.tick (0); p.act ("m", Event::PAUSE);
  CHECK ("still drawn", pix (p, 5, 5) == 0xff0000);
}
''')
seed("c20-height-percent", "C20", "lib/PlayerAnimator.cpp", (
("""  if (name == "top" || name == "height")
    {
""", """  if (name == "top")
    {
"""), ("""  else if (name == "left" || name == "width")
""", """  else if (name == "left" || name == "width" || name == "height")
""")), "an attribution with a duration of a percentage to height on a screen that is not square", "the height is animated towards a percentage of the screen's width", PIC + r'''
void demo () {
  Play p (one (P ("background", "red") + P ("height", "0") + P ("width", "100%")), 100, 50); p.tick (0);
  pix (p, 0, 0, 100, 50); anim (p, "height", "50%", "2s"); p.tick (1); p.tick (1); p.tick (.1);
  CHECK ("inside", pix (p, 5, 23, 100, 50) == 0xff0000); CHECK ("outside", pix (p, 5, 30, 100, 50) == 0);
}
''')
seed("c20-short-duration", "C20", "lib/Media.cpp", (
"""  if (dur > 0)
    _player->schedulePropertyAnimation""", """  if (GINGA_TIME_AS_SECONDS (dur) > 0)
    _player->schedulePropertyAnimation"""), "an attribution with a duration below one second", "the property jumps to the new value", PIC + r'''
void demo () {
  Play p (one (P ("background", "red") + P ("height", "10") + P ("width", "10") + P ("left", "0")), 100, 100); p.tick (0);
  pix (p, 0, 0); anim (p, "left", "80", "0.8s"); p.tick (.4);
  CHECK ("half way", pix (p, 43, 5) == 0xff0000); CHECK ("not at the end", pix (p, 85, 5) == 0);
}
''')
seed("c20-instant-transition", "C20", "lib/PlayerAnimator.cpp", (
"""  if (_duration == 0 || (dir > 0 && _current >= _target)
""", """  if ((dir > 0 && _current >= _target)
"""), "a transition of zero duration", "the media is never revealed", PIC + r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m' descriptor='d'>" + P ("background", "red") + "</media>", "<transitionBase><transition id='t' type='barWipe' dur='0s'/></transitionBase><descriptorBase><descriptor id='d' transIn='t'/></descriptorBase>"), 100, 100);
  p.tick (0); pix (p, 50, 50); p.tick (1); CHECK ("shown", pix (p, 50, 50) == 0xff0000);
}
''')
seed("c20-speed-float", "C20", "lib/PlayerAnimator.cpp", (
"""  _current += dir * _speed * (double) (_current_time - _last_update);
""", """  _current += dir * _speed * (double) (int) (_current_time - _last_update);
"""), "more than 2.1 seconds between two redraws during an animation", "the animation runs backwards", PIC + r'''
void demo () {
  Play p (one (P ("background", "red") + P ("height", "10") + P ("width", "10") + P ("left", "10")), 100, 100); p.tick (0);
  pix (p, 0, 0); anim (p, "left", "80", "7s"); p.tick (3);
  CHECK ("3/7 of the way", pix (p, 45, 5) == 0xff0000);
}
''')
seed("c20-done-early", "C20", "lib/PlayerAnimator.cpp", (
"""    _speed = fabs (_target - current) / (double) _duration;
""", """    _speed = fabs (_target - current)
             / (double) (GINGA_TIME_AS_SECONDS (_duration) * GINGA_SECOND);
"""), "a duration with a fraction of a second", "the animation ends early", PIC + r'''
void demo () {
  Play p (one (P ("background", "red") + P ("height", "10") + P ("width", "10") + P ("left", "0")), 100, 100); p.tick (0);
  pix (p, 0, 0); anim (p, "left", "80", "1.9s"); p.tick (1);
  CHECK ("10/19 of the way", pix (p, 45, 5) == 0xff0000 && pix (p, 60, 5) == 0);
}
''')
seed("c28-alias-default", "C28", "lib/Player.cpp", (
"""  tryset (defval, info->defval);
""", """  tryset (defval, name == _name ? info->defval : "");
"""), "a property with a default set to the empty string by its alias while playing", "the default is not restored", PIC + r'''
void demo () {
  Play p (one (P ("explicitDur", "2s")), 100, 100); p.tick (0);
  p.set ("m", "explicitDur", ""); p.tick (1); p.tick (2); p.tick (1);
  CHECK ("no duration any more", p.st ("m") == "o");
}
''')
seed("c28-first-dot", "C28", "lib/Player.cpp", (
"""  index = uri.find_last_of (".");
""", """  index = uri.find (".", uri.find_last_of ("/") + 1);
"""), "a content whose file name has two dots", "its player is not found and an empty one is used", PIC + r'''
void demo () {
  cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, 4, 2); cairo_t *c = cairo_create (s); cairo_set_source_rgb (c, 0, 1, 0); cairo_paint (c); cairo_destroy (c);
  cairo_surface_write_to_png (s, (string (getenv ("DEMO_TMP")) + "/a.b.png").c_str ()); cairo_surface_destroy (s);
  Play p (one ("", " src='a.b.png'"), 100, 100); p.tick (0);
  CHECK ("drawn", pix (p, 50, 50) == 0x00ff00); CHECK ("type", p.prop ("m", "type") == "image/png");
}
''')
seed("c28-extension-wins", "C28", "lib/Player.cpp", (
"""  if (mime == "" && uri != "")
    {
      getMimeForURI (uri, &mime);
""", """  if (uri != "")
    {
      getMimeForURI (uri, &mime);
"""), "a declared type that disagrees with the content's extension", "the declared type is ignored", PIC + r'''
void demo () {
  put ("t.txt", "x");
  Play p (one (P ("fontColor", "white"), " src='t.txt' type='application/x-ginga-timer'"), 100, 100); p.tick (0); pix (p, 0, 0);
  CHECK ("type kept", p.prop ("m", "type") == "application/x-ginga-timer");
}
''')
seed("c28-visible-default", "C28", "lib/Player.cpp", (
"""  if (_value == "")
    {
      use_defval = true;
      _value = defval;
    }
""", """  if (_value == "" && this->getProperty (name) == "")
    {
      use_defval = true;
      _value = defval;
    }
"""), "a property set to the empty string after it had a value", "the default does not return", PIC + r'''
void demo () {
  Play p (one (P ("background", "red") + P ("zIndex", "3") + P ("left", "50")), 100, 100); p.tick (0);
  p.set ("m", "left", ""); CHECK ("at its default", pix (p, 5, 5) == 0xff0000);
}
''')
seed("c25-surface", "C25", "lib/Player.cpp", (
"""  if (_surface != nullptr)
    cairo_surface_destroy (_surface);
  if (_gltexture)
""", """  if (_surface != nullptr && _state != SLEEPING)
    cairo_surface_destroy (_surface);
  if (_gltexture)
"""), "an image or text media that was stopped", "its picture is never freed", PIC + r'''
#include <malloc.h>
void demo () {
  cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, 1000, 1000); cairo_surface_write_to_png (s, (string (getenv ("DEMO_TMP")) + "/i.png").c_str ()); cairo_surface_destroy (s);
  Play p (one ("", " src='i.png'"), 100, 100); p.tick (0);
  auto used = [] { struct mallinfo2 m = mallinfo2 (); return m.uordblks + m.hblkhd; };
  for (int i = 0; i < 3; i++) { p.act ("m", Event::STOP); p.act ("m", Event::START); pix (p, 0, 0); }
  size_t a = used (); for (int i = 0; i < 5; i++) { p.act ("m", Event::STOP); p.act ("m", Event::START); pix (p, 0, 0); }
  CHECK ("memory is reused", used () < a + 8000000);
}
''')
seed("c25-text-layout", "C25", "lib/PlayerText.cpp", (
"""  g_object_unref (layout);
  cairo_destroy (cr);

""", """  if (halign != "justified")
    g_object_unref (layout);
  cairo_destroy (cr);

"""), "a justified text media", "its layout is never freed", PIC + r'''
#include <malloc.h>
void demo () {
  put ("t.txt", string (200000, 'x'));
  Play p (one (P ("horzAlign", "justified"), " src='t.txt'"), 100, 100); p.tick (0);
  auto used = [] { struct mallinfo2 m = mallinfo2 (); return m.uordblks + m.hblkhd; };
  for (int i = 0; i < 2; i++) { p.act ("m", Event::STOP); p.act ("m", Event::START); pix (p, 0, 0); }
  size_t a = used (); for (int i = 0; i < 5; i++) { p.act ("m", Event::STOP); p.act ("m", Event::START); pix (p, 0, 0); }
  CHECK ("memory is reused", used () < a + 500000);
}
''')
seed("c25-clone", "C25", "lib/Predicate.cpp", (
"""      for (auto child : _children)
        clone->addChild (child->clone ());
""", """      for (auto child : _children)
        clone->addChild (_children.size () > 1 ? child->clone ()
                                               : child->clone ()->clone ());
"""), "a predicate with a single child, used by two links or with two conditions", "a copy of the child is never freed", PIC + r'''
#include <malloc.h>
void demo () {
  string t = ncl ("<port id='p' component='m'/><media id='m'><property name='v' value='1'/></media><link xconnector='k'><bind role='onBegin' component='m'/><bind role='stop' component='m'/><bind role='x' component='m' interface='v'/></link>",
    "<connectorBase><causalConnector id='k'><compoundCondition operator='and'><simpleCondition role='onBegin'/><compoundStatement operator='and' isNegated='true'><assessmentStatement comparator='eq'><attributeAssessment role='x' eventType='attribution' attributeType='nodeProperty'/><valueAssessment value='1'/></assessmentStatement><assessmentStatement comparator='eq'><attributeAssessment role='x' eventType='attribution' attributeType='nodeProperty'/><valueAssessment value='2'/></assessmentStatement></compoundStatement></compoundCondition><simpleAction role='stop'/></causalConnector></connectorBase>");
  auto used = [] { struct mallinfo2 m = mallinfo2 (); return m.uordblks + m.hblkhd; };
  string err; auto one = [&] { Document *d = Parser::parseBuffer (t.data (), t.size (), 800, 600, &err); CHECK (err.c_str (), d != nullptr); delete d; };
  for (int i = 0; i < 100; i++) one ();
  size_t a = used (); for (int i = 0; i < 1000; i++) one ();
  CHECK ("memory is reused", used () < a + 50000);
}
''')
seed("c26-alias-taken", "C26", "lib/Document.cpp", (
"""      || getObjectByIdOrAlias (obj->getId ()) != nullptr)
""", """      || getObjectById (obj->getId ()) != nullptr)
"""), "adding an object whose id is an alias of another", "an id and an alias denote different objects", r'''
void demo () {
  Document *d = new Document (); Media *m = new Media ("m"), *n = new Media ("a");
  CHECK ("added", d->addObject (m)); m->addAlias ("a", nullptr);
  CHECK ("refused", !d->addObject (n)); CHECK ("the alias", d->getObjectByIdOrAlias ("a") == m);
}
''')
seed("c26-label-event", "C26", "lib/Object.cpp", (
"""  Event *evt;
  if (this->getPresentationEvent (id))
    return;

  evt = new Event (Event::PRESENTATION, this, id);
  evt->setLabel (label);
""", """  Event *evt;
  if (this->getPresentationEventByLabel (label))
    return;

  evt = new Event (Event::PRESENTATION, this, id);
  evt->setLabel (label);
"""), "two anchors of one id and different labels", "an object gets two presentation events of one id", r'''
void demo () {
  Media *m = new Media ("m"); m->addPresentationEvent ("a", "x"); m->addPresentationEvent ("a", "y");
  int n = 0; for (auto e : *m->getEvents ()) n += e->getId () == "a";
  CHECK ("one event of that id", n == 1);
}
''')
seed("c26-alias-prefix", "C26", "lib/Object.cpp", (
"""  for (auto curr : _aliases)
    if (curr.first == alias)
      return true;
  return false;
""", """  for (auto curr : _aliases)
    if (xstrcasecmp (curr.first, alias) == 0)
      return true;
  return false;
"""), "two names that differ in case only", "a look-up by alias returns another object", r'''
void demo () {
  Document *d = new Document (); Media *m = new Media ("m");
  CHECK ("added", d->addObject (m)); m->addAlias ("abc", nullptr);
  CHECK ("not the name", d->getObjectByIdOrAlias ("ABC") == nullptr);
}
''')
seed("c18-percent-fraction", "C18", "lib/aux-ginga.cpp", (
"""      tryset (perc, true);
      return x / 100.;
""", """      tryset (perc, true);
      return floor (x + .5) / 100.;
"""), "a percentage with a fraction", "the fraction is lost", PIC + r'''
void demo () {
  Play p (one (P ("background", "red") + P ("left", "0.7%")), 1000, 10); p.tick (0);
  CHECK ("left", pix (p, 6, 5, 1000, 10) == 0); CHECK ("drawn", pix (p, 8, 5, 1000, 10) == 0xff0000);
}
''')
NET = r'''
#include <libsoup/soup.h>
static std::vector<string> got; static SoupServer *srv; static int port;
static void on_req (SoupServer *, SoupMessage *m, const char *path, GHashTable *, SoupClientContext *, gpointer)
{ got.push_back (string (path) + " " + m->request_body->data); soup_message_set_status (m, 200); }
static string serve ()
{
  srv = soup_server_new (NULL, NULL); soup_server_add_handler (srv, NULL, on_req, NULL, NULL);
  soup_server_listen_local (srv, 0, (SoupServerListenOptions) 0, NULL);
  GSList *u = soup_server_get_uris (srv); port = ((SoupURI *) u->data)->port;
  return xstrbuild ("http://127.0.0.1:%d", port);
}
static int count (const string &path, const string &act)
{
  for (int i = 0; i < 60; i++) { g_main_context_iteration (NULL, FALSE); g_usleep (3000); }
  int n = 0; for (auto &x : got) n += x.find (path + " ") != string::npos && x.find ("\"" + act + "\"") != string::npos; return n;
}
'''
seed("c29-stop-paused", "C29", "lib/PlayerRemote.cpp", (
"""  string body = xstrbuild (REMOTE_PLAYER_JSON_ACT, "stop", 0);
  sendAction (body);
""", """  string body = xstrbuild (REMOTE_PLAYER_JSON_ACT, "stop", 0);
  if (this->getState () != PAUSED)
    sendAction (body);
"""), "a remote media that is stopped while paused", "the device is not told", NET + r'''
void demo () {
  string u = serve ();
  Play p (ncl ("<port id='p' component='n'/><media id='n'/><media id='m' type='application/x-ncl360'><property name='remotePlayerBaseURL' value='" + u + "'/></media>")); p.tick (0);
  p.act ("m", Event::START); p.act ("m", Event::PAUSE); p.act ("m", Event::STOP);
  CHECK ("started", count ("/m", "start") == 1); CHECK ("stopped", count ("/m", "stop") == 1);
}
''')
seed("c29-by-extension", "C29", "lib/PlayerRemote.cpp", (
"""  if (mime.empty ())
    getMimeForURI (uri, &mime);
""", """  if (mime.empty () && xstrhasprefix (uri, "http"))
    getMimeForURI (uri, &mime);
"""), "a media bound to remote players by its content's extension only", "it is never assigned", NET + r'''
void demo () {
  Play p (ncl ("<port id='p' component='n'/><media id='n'/><media id='m' src='x.ncl360'/>"));
  CHECK ("remote", PlayerRemote::usesPlayerRemote ((Media *) p.o ("m")));
}
''')
seed("c29-label-abort", "C29", "lib/Media.cpp", (
"""          else if (evt->hasLabel ())
            {
              _player->sendPresentationEvent ("start", evt->getLabel ());
""", """          else if (evt->hasLabel () && evt->getLabel () != _id)
            {
              _player->sendPresentationEvent ("start", evt->getId ());
"""), "an anchor whose label differs from its id", "the device is sent the id instead of the label", NET + r'''
void demo () {
  string u = serve ();
  Play p (ncl ("<port id='p' component='n'/><media id='n'/><media id='m' type='application/x-ncl360'><property name='remotePlayerBaseURL' value='" + u + "'/><area id='a' label='lab'/></media>")); p.tick (0);
  p.act ("m", Event::START); p.act ("m", Event::START, "a"); CHECK ("label", count ("/lab", "start") == 1);
}
''')
seed("c29-swapped", "C29", "lib/PlayerRemote.cpp", (
"""      getProperty ("width").c_str (), getProperty ("height").c_str (),
""", """      getProperty ("width").c_str (),
      getProperty (getProperty ("height") != "" ? "height" : "width").c_str (),
"""), "a remote media that declares a width but no height", "the device is sent the width as height", NET + r'''
void demo () {
  string u = serve ();
  Play p (ncl ("<port id='p' component='n'/><media id='n'/><media id='m' type='application/x-ncl360'><property name='remotePlayerBaseURL' value='" + u + "'/><property name='width' value='43'/></media>")); p.tick (0);
  p.act ("m", Event::START); CHECK ("sent", count ("/m", "start") == 1);
  size_t n = 0; for (auto &x : got) for (size_t i = 0; (i = x.find ("43", i)) != string::npos; i++) n++;
  CHECK ("once", n == 1);
}
''')
seed("c24-key-case", "C24", "lib/Object.cpp", (
"""    if (evt->getType () == type && evt->getId () == id)
      return evt;
""", """    if (evt->getType () == type && xstrcasecmp (evt->getId (), id) == 0)
      return evt;
"""), "a name that differs in case only", "a request that names no key of the object performs another one's selection", r'''
void demo () {
  Media *m = new Media ("m"); m->addSelectionEvent ("RED"); m->addLookAtEvent ("a");
  CHECK ("known", m->getSelectionEvent ("RED") != nullptr); CHECK ("unknown key", m->getSelectionEvent ("red") == nullptr); CHECK ("unknown interface", m->getLookAtEvent ("A") == nullptr);
}
''')
seed("c24-lookaway-awake", "C24", "lib/Media.cpp", (
"""    case Event::SELECTION:   // fall through
    case Event::LOOKAT:
""", """    case Event::SELECTION:   // fall through
    case Event::LOOKAT:
      if (evt->getType () == Event::LOOKAT && this->isPaused ())
        return false; // fail
"""), "a look request while the media is paused", "the request has no effect", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'/><media id='n'/><link xconnector='k'><bind role='onLookAt' component='m'/><bind role='start' component='n'/></link>",
    "<connectorBase><causalConnector id='k'><simpleCondition role='onLookAt'/><simpleAction role='start'/></causalConnector></connectorBase>")); p.tick (0);
  p.act ("m", Event::PAUSE); p.d ()->evalAction (p.ev (Event::LOOKAT, "m", "@lambda"), Event::START); CHECK ("link triggered", p.st ("n") == "o");
}
''')
