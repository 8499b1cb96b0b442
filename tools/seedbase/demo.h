// Helpers for the demonstrations: plays NCL texts on the real library.
#include "aux-ginga.h"
#include "Document.h"
#include "Context.h"
#include "Switch.h"
#include "Media.h"
#include "MediaSettings.h"
#include "Formatter.h"
#include "Parser.h"
#include "ParserLua.h"
#include "Predicate.h"
#include "Player.h"
#include "PlayerRemote.h"
#include "stubs.h"
#include <unistd.h>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
using namespace ginga;
using std::string;
static int failures = 0;
#define CHECK(what, cond) do { if (!(cond)) { printf ("FAILED: %s  [%s]\n", what, #cond); failures++; } } while (0)
static inline string put (const string &name, const string &text)
{
  string p = string (getenv ("DEMO_TMP")) + "/" + name;
  FILE *f = fopen (p.c_str (), "w"); fwrite (text.data (), 1, text.size (), f); fclose (f);
  return p;
}
static inline string ncl (const string &body, const string &head = "")
{
  return "<ncl>\n<head>\n" + head + "\n</head>\n<body>\n" + body + "\n</body>\n</ncl>\n";
}
struct Play
{
  Formatter *f; uint64_t total = 0, n = 0; bool ok; string err;
  Play (const string &text, int w = 800, int h = 600, const string &name = "demo.ncl")
  {
    GingaOptions o; o.width = w; o.height = h; o.debug = o.webservices = o.opengl = o.experimental = false; o.background = "";
    f = (Formatter *) Ginga::create (&o);
    ok = f->start (put (name, text), &err);
    if (!ok) printf ("start: %s\n", err.c_str ());
  }
  ~Play () { delete f; }
  bool tick (double s) { uint64_t d = (uint64_t) (s * 1e9 + .5); total += d; return f->sendTick (total, d, n++); }
  bool key (const string &k, bool press = true) { return f->sendKey (k, press); }
  Document *d () { return f->getDocument (); }
  Object *o (const string &id) { return id == "" ? d ()->getRoot () : d ()->getObjectByIdOrAlias (id); }
  Event *ev (Event::Type t, const string &obj, const string &id) { return o (obj)->getEvent (t, id); }
  // "o", "s", "p" for occurring, sleeping, paused
  static string s (Event *e) { return e == nullptr ? "none" : Event::getEventStateAsString (e->getState ()).substr (0, 1); }
  string st (const string &obj, const string &area = "@lambda") { return s (ev (Event::PRESENTATION, obj, area)); }
  string at (const string &obj, const string &prop) { return s (ev (Event::ATTRIBUTION, obj, prop)); }
  string sel (const string &obj, const string &key) { return s (ev (Event::SELECTION, obj, key)); }
  string prop (const string &obj, const string &n) { return o (obj)->getProperty (n); }
  int act (const string &obj, Event::Transition t, const string &area = "@lambda")
  { return d ()->evalAction (ev (Event::PRESENTATION, obj, area), t); }
  int set (const string &obj, const string &p, const string &v)
  { return d ()->evalAction (ev (Event::ATTRIBUTION, obj, p), Event::START, v); }
};
void demo ();
int main ()
{
  setvbuf (stdout, 0, _IOLBF, 0);
  demo ();
  printf (failures ? "%d FAILED\n" : "ok\n", failures);
  return failures != 0;
}
