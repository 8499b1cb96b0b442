// Reference model of the NCL playback semantics the properties state.
// It takes the *structure* of a document (objects, events, ports, links, rules,
// intervals) from the parsed document through the public API, and then
// predicts every state change on its own.
#ifndef MODEL_H
#define MODEL_H
#include "aux-ginga.h"
#include "Document.h"
#include "Context.h"
#include "Switch.h"
#include "Media.h"
#include "MediaSettings.h"
#include "Formatter.h"
#include "vf.h"
#include <map>
#include <set>
#include <list>
#include <vector>

namespace model {
using ginga::Event;
typedef uint64_t Time;
static const Time NONE = GINGA_TIME_NONE;
enum Kind { CTX, SWITCH, MEDIA, SETTINGS };

struct MAction
{
  int ev = -1; Event::Transition tr = Event::START;
  ginga::Predicate *pred = nullptr;
  std::string value, duration, delay;
};
struct MEvent
{
  int obj; Event::Type type; std::string id, label, key, full; bool lambda;
  Time begin, end; Event::State state = Event::SLEEPING;
  std::string value, duration; Event *real;
};
struct MObj
{
  Kind kind; std::string id; int parent = -1; std::vector<int> kids, evs, lambda_of;
  int lambda = -1; Time time = NONE;
  std::map<std::string, std::string> props;
  std::list<std::pair<MAction, Time>> delayed;
  std::vector<int> ports; bool links_on = true;
  std::vector<std::pair<std::vector<MAction>, std::vector<MAction>>> links;
  std::vector<std::pair<int, ginga::Predicate *>> rules;
  std::vector<std::pair<std::string, std::vector<int>>> sports;
  int selected = -1; bool fromport = false;
  std::vector<int> aliases; std::vector<std::string> names;
  bool player = false; Time pdur = NONE; std::string pfocus; int pstate = 0;
  ginga::Object *real = nullptr;
};
struct LogEntry { int ev; Event::Transition tr; };

class Model
{
public:
  std::vector<MObj> o;
  std::vector<MEvent> e;
  std::vector<int> objorder;                 // document iteration order
  std::map<ginga::Object *, int> omap;
  std::map<Event *, int> emap;
  std::map<std::string, int> byid;
  int root = -1, settings = -1;
  bool playing = false;
  bool hasNext = false; std::string nextFocus, currentFocus;
  std::vector<LogEntry> log;
  std::map<std::string, std::map<std::string, std::string>> initial; // object id -> properties
  std::set<std::string> universe;            // property names compared
  bool overflow = false;                     // reaction did not settle (unbounded link loop)
  unsigned budget = 0;

  void init (ginga::Document *doc, const std::set<std::string> &names);
  int find (const std::string &full) const;

  // operations
  void start ();
  bool tick (Time diff);
  bool key (const std::string &k, bool press);
  int action (int ev, Event::Transition tr, const std::string &value = "");
  bool trans (int ev, Event::Transition tr);
  bool stop () { if (!playing) return false; playing = false; return true; }

  // observation
  bool focused (int i) const { return o[i].kind == MEDIA && occ (i) && o[i].pfocus != "" && o[i].pfocus == currentFocus; }
  std::string canon () const;
  bool occ (int i) const { return e[o[i].lambda].state == Event::OCCURRING; }
  bool slp (int i) const { return e[o[i].lambda].state == Event::SLEEPING; }
  bool eval (ginga::Predicate *p) const;
  bool ref (const std::string &r, std::string *out) const;

private:
  int eval_action (MAction a);
  std::vector<MAction> in_ctx (const MAction &a, int ctx);
  bool before (int ev, Event::Transition tr);
  bool after (int ev, Event::Transition tr);
  void do_start (int ob);
  void do_stop (int ob);
  void add_delayed (int ob, int ev, Event::Transition tr, const std::string &v, Time d);
  void obj_tick (int ob, Time diff);
  void ctx_tick (int ob, Time diff);
  void media_tick (int ob, Time diff);
  void set_prop (int ob, const std::string &n, const std::string &v, Time dur);
  void player_prop (int ob, const std::string &n, const std::string &v);
  unsigned awake (int ctx) const;
  void update_focus (const std::string &idx);
  bool eos ();
  bool is_child_awake (int k) const;
};

Time parse_time (const std::string &s, bool *ok = nullptr);
const char *tname (Event::Transition t);
const char *sname (Event::State s);
}
#endif
