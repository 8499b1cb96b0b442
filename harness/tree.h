// What makes a document a consistent tree with unique names (C26), read off the
// public lookups alone; and all sequences of construction calls.
#ifndef TREE_H
#define TREE_H
#include "aux-ginga.h"
#include "Document.h"
#include "Context.h"
#include "Switch.h"
#include "Media.h"
#include "MediaSettings.h"
#include "vf.h"
#include <map>
#include <set>
#include <memory>
namespace tree {
using namespace ginga; using vf::fmt; typedef std::string S;

// "" if consistent; names: further names to look up
inline S inconsistent (Document *d, std::set<S> names, bool ports = true)
{
  std::map<Object *, Composition *> par; std::vector<Object *> todo { d->getRoot () };
  S bad; auto out = [&] (const S &s) { if (bad == "") bad = s; };
  if (d->getRoot ()->getParent ()) out ("the body has a parent");
  par[d->getRoot ()] = nullptr;
  while (!todo.empty ())
    {
      Object *o = todo.back (); todo.pop_back ();
      if (auto c = dynamic_cast<Composition *> (o))
        for (auto k : *c->getChildren ())
          {
            if (par.count (k)) { out (k->getId () + " has two parents"); continue; }
            par[k] = c; todo.push_back (k);
            if (k->getParent () != c) out (k->getId () + ": getParent is not the object that contains it");
          }
    }
  auto *objs = d->getObjects ();
  for (auto o : *objs) if (!par.count (o)) out (o->getId () + " is in the document but not in its tree");
  std::map<S, std::set<Object *>> den; std::map<S, Object *> byid;
  size_t nm = 0, nc = 0, ns = 0, nset = 0;
  for (auto &p : par)
    {
      Object *o = p.first; S id = o->getId ();
      if (!objs->count (o)) out (id + " is in the tree but not in the document");
      if (o->getDocument () != d) out (id + ": wrong document");
      if (byid.count (id)) out ("two objects have the id " + id);
      byid[id] = o; den[id].insert (o); names.insert (id);
      std::set<std::pair<S, Composition *>> seen;
      for (auto &a : *o->getAliases ())
        {
          den[a.first].insert (o); names.insert (a.first); if (!o->hasAlias (a.first)) out (id + " denies its alias " + a.first);
          if (!seen.insert (a).second) out (id + ": alias " + a.first + " listed twice");
          if (a.second && !par.count (a.second)) out (id + ": alias " + a.first + " placed outside of the tree");
        }
      if (dynamic_cast<Media *> (o)) { nm++; if (!d->getMedias ()->count ((Media *) o)) out (id + " missing in the media"); if (dynamic_cast<MediaSettings *> (o)) nset++; }
      else if (dynamic_cast<Context *> (o)) { nc++; if (!d->getContexts ()->count ((Context *) o)) out (id + " missing in the contexts"); }
      else if (dynamic_cast<Switch *> (o)) { ns++; if (!d->getSwitches ()->count ((Switch *) o)) out (id + " missing in the switches"); }
      std::set<std::pair<int, S>> evs; std::map<S, int> labels;
      bool lam = false;
      for (auto e : *o->getEvents ())
        {
          if (e->getObject () != o) out (id + ": event of another object");
          if (!evs.insert ({ (int) e->getType (), e->getId () }).second) out (id + ": two events of the same type and id " + e->getId ());
          if (o->getEvent (e->getType (), e->getId ()) != e) out (id + ": lookup of event " + e->getId () + " finds another one");
          if (e->getType () == Event::ATTRIBUTION && o->getAttributionEvent (e->getId ()) != e) out (id + ": attribution event lookup");
          if (e->getType () == Event::SELECTION && o->getSelectionEvent (e->getId ()) != e) out (id + ": selection event lookup");
          if (e->getType () == Event::LOOKAT && o->getLookAtEvent (e->getId ()) != e) out (id + ": look event lookup");
          if (e->getType () == Event::PRESENTATION)
            {
              if (o->getPresentationEvent (e->getId ()) != e) out (id + ": presentation event lookup");
              if (e->hasLabel ()) { auto f = o->getPresentationEventByLabel (e->getLabel ()); if (!f || f->getLabel () != e->getLabel ()) out (id + ": label lookup"); }
              if (e == o->getLambda ()) lam = true;
              if (e->isLambda () != (e == o->getLambda ())) out (id + ": isLambda");
            }
        }
      if (!lam) out (id + " has no event for its whole content");
      if (auto c = dynamic_cast<Context *> (o))
        for (auto e : *c->getPorts ())
          {
            // of something inside it, possibly through inner ports or under another name
            auto inside = [&] (Object *x) { while (x && x != c) x = x->getParent (); return x == c; };
            bool ok = inside (e->getObject ()); for (auto &a : *e->getObject ()->getAliases ()) ok |= a.second && inside (a.second);
            if (!ok && ports) out (id + ": port to " + e->getFullId () + ", which is not inside it");
          }
    }
  if (nm != d->getMedias ()->size () || nc != d->getContexts ()->size () || ns != d->getSwitches ()->size ()) out ("the sets of media, contexts and switches do not partition the objects");
  if (nset != 1 || !par.count (d->getSettings ())) out ("not exactly one settings object");
  if (par.size () != objs->size ()) out ("objects and tree differ");
  std::set<S> more; // names that only look like one that something carries
  for (auto &n : names) if (n != "") { S c = n; c[0] = isupper (c[0]) ? tolower (c[0]) : toupper (c[0]); more.insert (c); more.insert (n + "#"); more.insert (" " + n); }
  names.insert (more.begin (), more.end ());
  for (auto &n : names)
    {
      auto it = byid.find (n);
      if (d->getObjectById (n) != (it == byid.end () ? nullptr : it->second)) out ("looking up the id " + n + " does not find its object");
      auto jt = den.find (n);
      if (jt == den.end ()) { if (d->getObjectByIdOrAlias (n)) out ("looking up " + n + ", which nothing carries, finds something"); continue; }
      if (jt->second.size () > 1) out ("two objects are known as " + n);
      if (d->getObjectByIdOrAlias (n) != *jt->second.begin ()) out ("looking up " + n + " does not find the object that carries it");
      for (auto &p : par) if (auto c = dynamic_cast<Composition *> (p.first))
        {
          Object *ci = nullptr, *ca = nullptr; for (auto k : *c->getChildren ()) { if (k->getId () == n) ci = k; if (k->getId () == n || k->hasAlias (n)) ca = k; }
          if (c->getChildById (n) != ci) out ("looking up the child " + n + " of " + c->getId ());
          if (c->getChildByIdOrAlias (n) != ca) out ("looking up the child or alias " + n + " of " + c->getId ());
        }
    }
  return bad;
}

// ---- construction by calls ----
struct Mirror { std::map<S, std::pair<S, char>> obj; std::map<S, S> alias; std::set<S> evs; std::vector<S> ports; }; // id -> (parent, kind), name -> id, "obj/type/id/begin/end/label"
struct Call { S what; std::function<void (Document *, std::vector<Object *> &, Mirror &, vf::Rep &)> f; };
inline S evrec (Event *e) { Time b, n; e->getInterval (&b, &n); return e->getObject ()->getId () + "/" + fmt ("%d", (int) e->getType ()) + "/" + e->getId () + "/" + (e->hasLabel () ? "L" + e->getLabel () : fmt ("%llu-%llu", (unsigned long long) b, (unsigned long long) n)); }
inline std::vector<Call> calls ()
{
  std::vector<Call> v;
  static const char *IDS[] = { "a", "b", "x" };
  static const char *KN[] = { "media", "context", "switch" };
  auto named = [] (Mirror &m, const S &n) { return m.obj.count (n) || m.alias.count (n); };
  auto mk = [] (char k, const S &id) -> Object * { if (k == 0) return new Media (id); if (k == 1) return new Context (id); return new Switch (id); };
  // a fresh object under the body or the youngest composition
  for (int k = 0; k < 3; k++) for (int where = 0; where < 2; where++) for (auto id : IDS)
    v.push_back ({ fmt ("new %s %s under the %s", KN[k], id, where ? "youngest composition" : "body"), [=] (Document *d, std::vector<Object *> &os, Mirror &m, vf::Rep &r) {
      Composition *p = d->getRoot (); if (where) for (auto o : os) if (auto c = dynamic_cast<Composition *> (o)) p = c;
      if (where && p == d->getRoot ()) return;
      Object *o = mk (k, id);
      if (named (m, id)) { if (d->addObject (o)) r.fail ("refuse", S ("an object with the taken name ") + id + " was added"); if (o->getDocument ()) r.fail ("refuse", "a refused object belongs to the document"); delete o; return; }
      p->addChild (o); os.push_back (o); m.obj[id] = { p->getId (), (char) k }; m.evs.insert (evrec (o->getLambda ())); } });
  // again: the same object, to its document and to its parent
  for (int w = 0; w < 2; w++)
    v.push_back ({ w ? "add the oldest object to its parent again" : "add the youngest object to the document and to its parent again", [=] (Document *d, std::vector<Object *> &os, Mirror &, vf::Rep &r) {
      if (os.empty ()) return; Object *o = w ? os.front () : os.back (); if (d->addObject (o)) r.fail ("refuse", "an object was added twice"); o->getParent ()->addChild (o); } });
  for (int w = 0; w < 2; w++) for (auto n : { "b", "x", "y" }) for (int at = 0; at < 2; at++)
    v.push_back ({ fmt ("alias %s of the %s object, placed in %s", n, w ? "oldest" : "youngest", at ? "its parent" : "the body"), [=] (Document *d, std::vector<Object *> &os, Mirror &m, vf::Rep &) {
      if (os.empty ()) return; Object *o = w ? os.front () : os.back ();
      if (m.obj.count (n) || (m.alias.count (n) && m.alias[n] != o->getId ())) return; // names are given once
      o->addAlias (n, at ? o->getParent () : d->getRoot ()); m.alias[n] = o->getId (); } });
  for (int w = 0; w < 2; w++) for (int e = 0; e < 6; e++)
    v.push_back ({ fmt ("%s event on the %s object", e == 0 ? "attribution p" : e == 1 ? "presentation p [1,2]" : e == 2 ? "presentation p [3,4]" : e == 3 ? "presentation p labelled l" : e == 4 ? "selection p" : "look p", w ? "oldest" : "youngest"), [=] (Document *, std::vector<Object *> &os, Mirror &m, vf::Rep &) {
      if (os.empty ()) return; Object *o = w ? os.front () : os.back ();
      Event::Type t = e == 0 ? Event::ATTRIBUTION : e < 4 ? Event::PRESENTATION : e == 4 ? Event::SELECTION : Event::LOOKAT;
      bool had = false; for (auto &s : m.evs) had |= s.compare (0, 0, "") == 0 && s.find (o->getId () + fmt ("/%d/p/", (int) t)) == 0;
      if (e == 0) o->addAttributionEvent ("p"); else if (e == 1) o->addPresentationEvent ("p", 1, 2); else if (e == 2) o->addPresentationEvent ("p", 3, 4); else if (e == 3) o->addPresentationEvent ("p", "l"); else if (e == 4) o->addSelectionEvent ("p"); else o->addLookAtEvent ("p");
      if (!had) { S q = e == 1 ? "1-2" : e == 2 ? "3-4" : e == 3 ? "Ll" : ""; if (q == "") { Event *x = o->getEvent (t, "p"); q = x ? evrec (x).substr (evrec (x).rfind ('/') + 1) : "?"; } m.evs.insert (o->getId () + fmt ("/%d/p/", (int) t) + q); } } });
  for (int w = 0; w < 2; w++)
    v.push_back ({ w ? "port to the oldest object's event p" : "port to the youngest object", [=] (Document *, std::vector<Object *> &os, Mirror &m, vf::Rep &) {
      if (os.empty ()) return; Object *o = w ? os.front () : os.back (); auto c = dynamic_cast<Context *> (o->getParent ()); if (!c) return;
      Event *e = w ? o->getPresentationEvent ("p") : o->getLambda (); if (!e) return;
      c->addPort (e); S s = c->getId () + ">" + o->getId () + "/" + e->getId (); if (std::find (m.ports.begin (), m.ports.end (), s) == m.ports.end ()) m.ports.push_back (s); } });
  return v;
}
inline void check (Document *d, Mirror &m, vf::Rep &r)
{
  static const std::set<S> U = { "", "a", "b", "x", "y", "__root__", "__settings__", "@lambda", "p" };
  S s = inconsistent (d, U); if (s != "") { r.fail ("consistency", s); return; }
  if (d->getObjects ()->size () != m.obj.size () + 2) { r.fail ("content", "wrong number of objects"); return; }
  std::set<S> evs; std::vector<S> ports;
  for (auto o : *d->getObjects ())
    {
      if (o->getId () == "__settings__") continue;
      if (o->getId () != "__root__")
        {
          auto it = m.obj.find (o->getId ()); if (it == m.obj.end ()) { r.fail ("content", "unexpected object " + o->getId ()); return; }
          char k = dynamic_cast<Media *> (o) ? 0 : dynamic_cast<Context *> (o) ? 1 : 2;
          if (k != it->second.second || o->getParent ()->getId () != it->second.first) { r.fail ("content", o->getId () + ": wrong kind or parent"); return; }
          for (auto e : *o->getEvents ()) evs.insert (evrec (e));
        }
      for (auto &a : m.alias) if (o->hasAlias (a.first) != (a.second == o->getId ())) { r.fail ("content", "alias " + a.first); return; }
      for (auto &a : *o->getAliases ()) if (!m.alias.count (a.first)) { r.fail ("content", "unexpected alias " + a.first); return; }
      if (auto c = dynamic_cast<Context *> (o)) for (auto e : *c->getPorts ()) ports.push_back (c->getId () + ">" + e->getObject ()->getId () + "/" + e->getId ());
    }
  if (evs != m.evs) { S t; for (auto &e : evs) if (!m.evs.count (e)) t += " +" + e; for (auto &e : m.evs) if (!evs.count (e)) t += " -" + e; r.fail ("content", "events:" + t); return; }
  auto a = ports, b = m.ports; std::sort (a.begin (), a.end ()); std::sort (b.begin (), b.end ()); if (a != b) { r.fail ("content", "ports"); return; }
  S c; for (auto &o : m.obj) c += o.first + o.second.first + char ('0' + o.second.second); for (auto &o : m.alias) c += o.first + "=" + o.second; for (auto &e : m.evs) c += e; for (auto &e : m.ports) c += e;
  r.state (c);
}
inline void families (vf::Spec &sp, unsigned depth)
{
  auto cs = std::make_shared<std::vector<Call>> (calls ()); uint64_t n = cs->size ();
  sp.families.push_back ({ fmt ("every sequence of %u construction calls out of %d", depth, (int) n), vf::ipow (n, depth), [=] (uint64_t i, vf::Rep &r) {
    Document *d = new Document (); std::vector<Object *> os; Mirror m; vf::Dec x (i); r.nontrivial = true;
    for (unsigned k = 0; k < depth && !r.failed; k++) { auto &c = (*cs)[x.next (n)]; r.say (c.what); c.f (d, os, m, r); r.steps++; if (!r.failed) check (d, m, r); }
    delete d; },
    [=] (uint64_t i) { S s; vf::Dec x (i); for (unsigned k = 0; k < depth; k++) s += (k ? "; " : "") + (*cs)[x.next (n)].what; return s; } });
}
}
#endif
