// Runs one real presentation (a Formatter over an NCL text) side by side with
// the reference model and compares every observable after every operation.
#ifndef DRIVE_H
#define DRIVE_H
#include "model.h"

// Transition log of the real code (successful transitions, in order).
struct RealLog { ginga::Event *e; ginga::Event::Transition t; };
extern std::vector<RealLog> g_tlog;
extern bool g_tlog_on;

enum Cmp { C_ORDER = 1 };        // additionally compare the order of transitions

class Drive;
struct Op
{
  enum K { TICK, KEY, ACT, TRANS, STOP, RESTART, START, FN, NOP } k = NOP;
  uint64_t d = 0; std::string s; bool press = true;
  ginga::Event::Transition t = ginga::Event::START; std::string v; std::function<std::string (Drive &)> fn;
};
Op T (double secs);
Op K (const std::string &key, bool press = true);
Op A (const std::string &ev, ginga::Event::Transition t, const std::string &v = "");
Op X (const std::string &ev, ginga::Event::Transition t);
Op FSTOP ();
Op RESTART ();
Op START (unsigned doc);             // start texts[doc]; must succeed iff stopped and the text is good
Op FN (const std::string &what, std::function<std::string (Drive &)> f); // a call that changes no playback state; returns "" or what went wrong
std::string show (const Op &);

class Drive
{
public:
  Drive (const std::string &ncl, vf::Rep &rep, unsigned flags = 0, bool desc = false);
  // a player (given, and owned from now on) and documents to start; nothing is started yet
  struct Text { std::string name, text; bool good; };
  Drive (ginga::Formatter *f, const std::vector<Text> &texts, vf::Rep &rep, unsigned flags = 0, bool desc = false);
  ~Drive ();
  bool ok () const { return !_rep.failed; }
  bool step (const Op &);
  ginga::Formatter *fmt () { return _fmt; }
  const std::string &text () const { return _ncl; }
  ginga::Document *doc () { return _fmt->getDocument (); }
  model::Model &m () { return *_m; }
  std::string file, bg; // bg: the background last asked for
  int w = 800, h = 600;
  uint64_t playtime () const { return _total; }
  int current = -1;
private:
  bool start ();
public:
  static long apply (model::Model &m, const Op &o); // the operation, on the model alone
private:
  bool compare (const std::string &after);
  void collect_names (const std::string &);
  std::string _ncl; vf::Rep &_rep; unsigned _flags; bool _desc;
  ginga::Formatter *_fmt = nullptr; model::Model *_m = nullptr;
  uint64_t _total = 0, _frame = 0; std::set<std::string> _names;
  unsigned _n = 0; std::vector<Text> _texts;
};
std::string ncl (const std::string &body, const std::string &head = "");
ginga::Event *find_event (ginga::Document *, const std::string &full);
#endif
