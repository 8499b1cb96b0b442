From 2d9c16baee76d104a9109650edbf0d3d06b835ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 01/84] fix: evaluate negated predicates instead of aborting

---
 lib/Document.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index e366275..312db0e 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -501,8 +501,9 @@ Document::evalPredicate (Predicate *pred)
         return result;
       }
     case Predicate::NEGATION:
-      g_assert_not_reached ();
-      break;
+      for (auto child : *pred->getChildren ())
+        return !this->evalPredicate (child);
+      return true;
     case Predicate::CONJUNCTION:
       {
         for (auto child : *pred->getChildren ())
-- 
2.43.0


From 40ce81a42668b74599dc0a5f9b603853860c4980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 02/84] fix: start all ports of a context that was once started
 from a port

---
 lib/Context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index c79e503..f95b020 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -254,6 +254,7 @@ Context::afterTransition (Event *evt, Event::Transition transition)
 
           // Start all ports in the next tick if not started from port
           evt->getParameter ("fromport", &param_test);
+          evt->setParameter ("fromport", "");
           if (param_test != "")
             break;
           for (auto port : _ports)
@@ -261,7 +262,6 @@ Context::afterTransition (Event *evt, Event::Transition transition)
               if (port->getType () == Event::PRESENTATION)
                 this->addDelayedAction (port, Event::START, "", 0);
             }
-          evt->setParameter ("fromport", "");
           TRACE ("start %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
           break;
-- 
2.43.0


From 724322056d086dfd80b771bf9b963024871e565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 03/84] fix: keep the selected switch component while the
 switch is paused

---
 lib/Switch.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index 1533299..a4eb09e 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -145,7 +145,8 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
               Event *lambda = _selected->getLambda ();
               g_assert_nonnull (lambda);
               lambda->transition (transition);
-              _selected = nullptr;
+              if (transition == Event::STOP || transition == Event::ABORT)
+                _selected = nullptr;
             }
           break;
 
-- 
2.43.0


From 25017bb352193d0872d181f90fa45ca1de897116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 04/84] fix: keep awake count and player state right when a
 paused object is started

---
 lib/Media.cpp  | 5 +++++
 lib/Object.cpp | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index fd444c2..baac370 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -266,6 +266,11 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
                       }
                   }
               }
+            else if (evt->isLambda () && evt->getState () == Event::PAUSED)
+              {
+                g_assert_nonnull (_player);
+                _player->resume ();
+              }
             break;
           }
 
diff --git a/lib/Object.cpp b/lib/Object.cpp
index 85d36e6..d3b5849 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -412,8 +412,10 @@ Object::getTime ()
 void
 Object::doStart ()
 {
+  // A paused object that is started again is already awake.
+  bool awake = GINGA_TIME_IS_VALID (_time);
   _time = 0;
-  if (_parent != nullptr && instanceof (Context *, _parent))
+  if (!awake && _parent != nullptr && instanceof (Context *, _parent))
     cast (Context *, _parent)->incAwakeChildren ();
 
   // schedule set currentFocus if the object have focusIndex
-- 
2.43.0


From 3dfcd4a6f5c8f9fb9759fd7c3741fe3b1f05a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 05/84] fix: refuse, instead of aborting on, transitions that
 non-presentation events lack

---
 lib/Context.cpp |  8 ++++++--
 lib/Media.cpp   | 15 ++++++++-------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index f95b020..54423cb 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -221,9 +221,12 @@ Context::beforeTransition (Event *evt, Event::Transition transition)
       break;
 
     case Event::ATTRIBUTION:
-      break; // nothing to do
+      if (transition == Event::PAUSE || transition == Event::RESUME)
+        return false; // fail
+      break;
 
-    case Event::SELECTION:
+    case Event::SELECTION: // fall through
+    case Event::LOOKAT:
       return false; // fail
 
     default:
@@ -315,6 +318,7 @@ Context::afterTransition (Event *evt, Event::Transition transition)
             break;
           }
         case Event::STOP:
+        case Event::ABORT:
           {
             TRACE ("stop %s:=...", evt->getFullId ().c_str ());
             break;
diff --git a/lib/Media.cpp b/lib/Media.cpp
index baac370..9aa747d 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -305,14 +305,12 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
         }
       break;
 
-    case Event::ATTRIBUTION:
-      break; // nothing to do
-
-    case Event::SELECTION:
-      break; // nothing to do
-
+    case Event::ATTRIBUTION: // fall through
+    case Event::SELECTION:   // fall through
     case Event::LOOKAT:
-      break; // nothing to do
+      if (transition == Event::PAUSE || transition == Event::RESUME)
+        return false; // fail
+      break;
 
     default:
       g_assert_not_reached ();
@@ -439,6 +437,7 @@ Media::afterTransition (Event *evt, Event::Transition transition)
             }
 
           case Event::STOP:
+          case Event::ABORT:
             TRACE ("stop %s:='%s'", evt->getFullId ().c_str (),
                    value.c_str ());
             break;
@@ -458,6 +457,7 @@ Media::afterTransition (Event *evt, Event::Transition transition)
             TRACE ("start %s", evt->getFullId ().c_str ());
             break;
           case Event::STOP:
+          case Event::ABORT:
             TRACE ("stop %s", evt->getFullId ().c_str ());
             break;
           default:
@@ -472,6 +472,7 @@ Media::afterTransition (Event *evt, Event::Transition transition)
           TRACE ("start %s", evt->getFullId ().c_str ());
           break;
         case Event::STOP:
+        case Event::ABORT:
           TRACE ("stop %s", evt->getFullId ().c_str ());
           break;
         default:
-- 
2.43.0


From 25f2de4d2c850ffb519a5acfd3dee77d558852a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 06/84] fix: refuse, instead of aborting on, transitions a
 switch does not support

---
 lib/Switch.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index a4eb09e..67371ec 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -68,6 +68,8 @@ bool
 Switch::beforeTransition (Event *evt, Event::Transition transition)
 {
   set<Event *> switchPort_evts; // The possible selected events.
+  if (evt->getType () != Event::PRESENTATION)
+    return false; // fail
   if (evt->isLambda ())
     {
       // If we are acting on the switch's @lambda all the @lambda children
@@ -94,7 +96,12 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
       switch (transition)
         {
         case Event::START:
-          g_assert_null (_selected);
+          if (_selected != nullptr)
+            {
+              if (evt->getState () != Event::PAUSED)
+                return false; // already started through another event
+              return _selected->getLambda ()->transition (transition);
+            }
           for (auto item : _rules)
             {
               Object *obj;
-- 
2.43.0


From 4fe2c063415ef3f30ee756cdc80979fb95b04b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 07/84] fix: allow an anchor to be stopped while its media
 object is paused

---
 lib/Media.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index 9aa747d..3e81f71 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -386,7 +386,6 @@ Media::afterTransition (Event *evt, Event::Transition transition)
           else // non-lambda area
             {
               Time end;
-              g_assert (this->isOccurring ());
               evt->getInterval (nullptr, &end);
               if (transition == Event::ABORT)
                 TRACE ("abort %s (end=%" GINGA_TIME_FORMAT
-- 
2.43.0


From 1ed0698466d49cfc10d4a8ae8d81b091be5fdab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 08/84] fix: keep the duration of a delayed attribution

---
 lib/Document.cpp | 3 ++-
 lib/Object.cpp   | 4 +++-
 lib/Object.h     | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 312db0e..b566bfc 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -293,7 +293,8 @@ Document::evalActionInContext (Action act, Context *ctx)
                   g_assert_nonnull (next_obj);
 
                   ctx->addDelayedAction (next_evt, next_act.transition,
-                                         next_act.value, delay);
+                                         next_act.value, delay,
+                                         next_act.duration);
                 }
             }
         }
diff --git a/lib/Object.cpp b/lib/Object.cpp
index d3b5849..be56fa9 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -351,13 +351,15 @@ Object::getDelayedActions ()
 
 void
 Object::addDelayedAction (Event *event, Event::Transition transition,
-                          const string &value, Time delay)
+                          const string &value, Time delay,
+                          const string &duration)
 {
   Action act;
 
   act.event = event;
   act.transition = transition;
   act.value = value;
+  act.duration = duration;
   _delayed.push_back (std::make_pair (act, _time + delay));
 }
 
diff --git a/lib/Object.h b/lib/Object.h
index fba94f9..3c58569 100644
--- a/lib/Object.h
+++ b/lib/Object.h
@@ -70,7 +70,8 @@ public:
 
   const list<pair<Action, Time> > *getDelayedActions ();
   void addDelayedAction (Event *, Event::Transition,
-                         const string &value = "", Time delay = 0);
+                         const string &value = "", Time delay = 0,
+                         const string &duration = "");
 
   virtual void sendKey (const string &, bool);
   virtual void sendTick (Time, Time, Time);
-- 
2.43.0


From f9ae7c311067419b10a14f8ab7384930c4f1a5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 09/84] fix: end attributions over sleeping objects and
 schedule nothing on them

---
 lib/Document.cpp | 10 ++++++++++
 lib/Object.cpp   |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index b566bfc..a2471e4 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -344,6 +344,16 @@ Document::evalAction (Action init)
       g_assert_nonnull (obj);
       comp = obj->getParent ();
 
+      // The clock of a sleeping object does not run: end its attribution
+      // at once, right after the links triggered by the attribution's start.
+      if (evt->getType () == Event::ATTRIBUTION
+          && act.transition == Event::START && obj->isSleeping ())
+        {
+          Action stop = act;
+          stop.transition = Event::STOP;
+          stack.push_back (stop);
+        }
+
       // If parent composition is a context
       if (comp != nullptr &&
           instanceof (Context *, comp) && comp->isOccurring ())
diff --git a/lib/Object.cpp b/lib/Object.cpp
index be56fa9..8d17da8 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -356,6 +356,9 @@ Object::addDelayedAction (Event *event, Event::Transition transition,
 {
   Action act;
 
+  if (!GINGA_TIME_IS_VALID (_time))
+    return; // sleeping
+
   act.event = event;
   act.transition = transition;
   act.value = value;
-- 
2.43.0


From 20f1e62827aca699e5c32919916a8f83aa1ba6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 10/84] fix: keep due actions of an object that gets paused by
 one of them

---
 lib/Object.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/Object.cpp b/lib/Object.cpp
index 8d17da8..c9a2fc4 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -390,11 +390,22 @@ Object::sendTick (unused (Time total), Time diff, unused (Time frame))
         }
     }
 
-  for (auto action : trigger)
+  while (!trigger.empty ())
     {
+      Action action = trigger.front ();
+      trigger.pop_front ();
       _doc->evalAction (action);
       if (!this->isOccurring ())
-        return;
+        {
+          // If paused, the remaining actions are due when it resumes.
+          if (this->isPaused ())
+            while (!trigger.empty ())
+              {
+                _delayed.push_front (make_pair (trigger.back (), _time));
+                trigger.pop_back ();
+              }
+          return;
+        }
     }
 
   for (auto it = _delayed.begin (); it != _delayed.end ();)
-- 
2.43.0


From 2c56fd0f423a4987087113bf0da56130b7e027fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 11/84] fix: do not abort when links start, pause or stop the
 settings object

---
 lib/Context.cpp   | 10 ++--------
 lib/Formatter.cpp |  4 ++--
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index 54423cb..676884c 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -152,14 +152,8 @@ Context::sendTick (Time total, Time diff, Time frame)
   // Check for EOS.
   if (_parent == nullptr && _awakeChildren == 1)
     {
-      if (_doc->getSettings ()->isOccurring ())
-        {
-          _doc->evalAction (_lambda, Event::STOP);
-        }
-      else
-        {
-          g_assert_not_reached ();
-        }
+      if (!_doc->getSettings ()->isSleeping ())
+        _doc->evalAction (_lambda, Event::STOP);
     }
   else if (_awakeChildren == 0)
     {
diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index 8153da2..fd445d2 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -162,10 +162,10 @@ Formatter::start (const string &file, string *errmsg)
   if (_doc->evalAction (evt, Event::START) == 0)
     return false;
 
-  // Start settings.
+  // Start settings (if not already started by a link).
   evt = _doc->getSettings ()->getLambda ();
   g_assert_nonnull (evt);
-  g_assert (evt->transition (Event::START));
+  evt->transition (Event::START);
 
   // Sets formatter state.
   _state = GINGA_STATE_PLAYING;
-- 
2.43.0


From 3ec9feb8b60ddf086c033628c44907babe32c267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 12/84] fix: trigger each link once per action, and only in
 occurring contexts

---
 lib/Document.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index a2471e4..9e82525 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -321,6 +321,7 @@ Document::evalAction (Action init)
       Object *obj;
       Composition *comp;
       Context *ctx_parent, *ctx_grandparent;
+      set<Context *> seen; // contexts whose links were triggered
 
       act = stack.back ();
       stack.pop_back ();
@@ -365,13 +366,17 @@ Document::evalAction (Action init)
           list<Action> ret = evalActionInContext (act, ctx_parent);
           stack.insert (stack.end (), ret.begin (), ret.end ());
 
+          seen.insert (ctx_parent);
+
           // If the event object is pointed by a port in the parent context,
           // trigger links in the its grantparent context ( and ancestors)
+          bool ported = true;
           comp = ctx_parent->getParent ();
-          if (comp != nullptr &&
-              instanceof (Context *, comp) && comp->isOccurring ())
+          while (ported && comp != nullptr &&
+                 instanceof (Context *, comp) && comp->isOccurring ())
             {
               ctx_grandparent = cast (Context *, comp);
+              ported = false;
               for (auto port : *ctx_parent->getPorts ())
                 {
                   if (port->getObject () == evt->getObject ())
@@ -379,8 +384,13 @@ Document::evalAction (Action init)
                       list<Action> ret
                           = evalActionInContext (act, ctx_grandparent);
                       stack.insert (stack.end (), ret.begin (), ret.end ());
+                      seen.insert (ctx_grandparent);
+                      ported = true;
+                      break;
                     }
                 }
+              ctx_parent = ctx_grandparent;
+              comp = ctx_parent->getParent ();
             }
         }
       // If parent composition is a switch
@@ -423,7 +433,8 @@ Document::evalAction (Action init)
           for (const auto &alias : *obj->getAliases ())
             {
               ctx_parent = cast (Context *, alias.second);
-              if (ctx_parent)
+              if (ctx_parent && ctx_parent->isOccurring ()
+                  && seen.insert (ctx_parent).second)
                 {
                   list<Action> ret = evalActionInContext (act, ctx_parent);
                   stack.insert (stack.end (), ret.begin (), ret.end ());
-- 
2.43.0


From 872f0d1e5c8dddde7f9ee6fabea3be0e7f91dd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 13/84] fix: mirror in a switchPort only the transitions of the
 events it maps

---
 lib/Document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 9e82525..a729a86 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -403,7 +403,7 @@ Document::evalAction (Action init)
             {
               for (const auto &mapped_evt : swtchPort.second)
                 {
-                  if (mapped_evt->getObject () == evt->getObject ()
+                  if (mapped_evt == evt
                       && swtch->getParent () != nullptr)
                     {
                       Event *label_evt = swtch->getEvent (
-- 
2.43.0


From aa5f0b42952b7962b08c466f9c68bfc4d9fca0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 14/84] fix: end a switch when its selected component ends

---
 lib/Document.cpp | 8 ++++++++
 lib/Switch.cpp   | 6 ++++++
 lib/Switch.h     | 1 +
 3 files changed, 15 insertions(+)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index a729a86..d33130a 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -417,6 +417,14 @@ Document::evalAction (Action init)
                     }
                 }
             }
+          // The switch ends along with its selected component.
+          if (evt->isLambda () && obj->isSleeping ()
+              && swtch->getSelected () == obj)
+            {
+              for (auto swtch_evt : *swtch->getEvents ())
+                if (swtch_evt->getType () == Event::PRESENTATION)
+                  this->evalAction (swtch_evt, act.transition);
+            }
         }
 
       // If event object is a context, trigger the context itself
diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index 67371ec..82cdf50 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -227,6 +227,12 @@ Switch::getRules ()
   return &_rules;
 }
 
+Object *
+Switch::getSelected ()
+{
+  return _selected;
+}
+
 void
 Switch::addRule (Object *obj, Predicate *pred)
 {
diff --git a/lib/Switch.h b/lib/Switch.h
index 8d2574a..97d334b 100644
--- a/lib/Switch.h
+++ b/lib/Switch.h
@@ -37,6 +37,7 @@ public:
 
   // Switch:
   const list<pair<Object *, Predicate *> > *getRules ();
+  Object *getSelected ();
   void addRule (Object *, Predicate *);
   const map<string, list<Event *> > *getSwitchPorts ();
   void addSwitchPort (const string &, const list<Event *> &);
-- 
2.43.0


From a28609ad301e1745d8dbb00f901d27c6b083ef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 15/84] fix: keep a switch started through a switchPort within
 its context's life

---
 lib/Context.cpp | 8 ++++++++
 lib/Switch.cpp  | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index 676884c..dac6951 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -19,6 +19,7 @@ along with Ginga.  If not, see <https://www.gnu.org/licenses/>.  */
 #include "Context.h"
 
 #include "Document.h"
+#include "Switch.h"
 #include "MediaSettings.h"
 
 namespace ginga {
@@ -168,6 +169,13 @@ Context::beforeTransition (Event *evt, Event::Transition transition)
     {
     case Event::PRESENTATION:
       g_assert (evt->isLambda ());
+      // A switch may have been started through one of its switchPorts.
+      if (transition != Event::START)
+        for (auto child : _children)
+          if (instanceof (Switch *, child))
+            for (auto e : *child->getEvents ())
+              if (e->getType () == Event::PRESENTATION && !e->isLambda ())
+                e->transition (transition);
       switch (transition)
         {
         case Event::START:
diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index 82cdf50..4ea5500 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -18,6 +18,7 @@ along with Ginga.  If not, see <https://www.gnu.org/licenses/>.  */
 #include "aux-ginga.h"
 #include "Switch.h"
 
+#include "Context.h"
 #include "Document.h"
 
 namespace ginga {
@@ -182,6 +183,11 @@ Switch::afterTransition (Event *evt, Event::Transition transition)
         {
         case Event::START:
           Object::doStart ();
+          if (instanceof (Context *, _parent) && _parent->isSleeping ())
+            {
+              _parent->getLambda ()->setParameter ("fromport", "true");
+              _parent->getLambda ()->transition (Event::START);
+            }
           TRACE ("start %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
           if (_selected == nullptr)
-- 
2.43.0


From 96f05361709727de0578c3012d5a197619e6082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 16/84] fix: do not lose focus updates scheduled or requested
 during another one

---
 lib/MediaSettings.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/MediaSettings.cpp b/lib/MediaSettings.cpp
index c820fd9..38f6a62 100644
--- a/lib/MediaSettings.cpp
+++ b/lib/MediaSettings.cpp
@@ -58,8 +58,8 @@ MediaSettings::sendTick (Time total, Time diff, Time frame)
 {
   if (_hasNextFocus) // effectuate pending focus index update
     {
-      this->updateCurrentFocus (_nextFocus);
       _hasNextFocus = false;
+      this->updateCurrentFocus (_nextFocus);
     }
   Media::sendTick (total, diff, frame);
 }
@@ -112,6 +112,8 @@ MediaSettings::updateCurrentFocus (const string &index)
   string value = next;
   Event *evt = this->getAttributionEvent ("service.currentFocus");
   g_assert_nonnull (evt);
+  if (evt->getState () != Event::SLEEPING)
+    _doc->evalAction (evt, Event::STOP, value);
   _doc->evalAction (evt, Event::START, value);
 }
 
-- 
2.43.0


From d89a0d08f42096d01c1aa4cee83b6fc7560bff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 17/84] fix: do not carry the focus of a presentation over to
 the next one

---
 lib/Formatter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index fd445d2..dc63f3d 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -122,6 +122,7 @@ Formatter::start (const string &file, string *errmsg)
 
   // Parse document.
   g_assert_null (_doc);
+  Player::setCurrentFocus ("");
   w = _opts.width;
   h = _opts.height;
   _doc = nullptr;
-- 
2.43.0


From 84d1483ec585ef3530037c550d9e074785892c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 18/84] fix: anchors that ended before the started one,
 sub-second anchor ends

---
 lib/Media.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index 3e81f71..ed92245 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -226,8 +226,11 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
                     if (end != GINGA_TIME_NONE)
                       {
                         dur = end - begin;
-                        string time_end = xstrbuild ("%" G_GUINT64_FORMAT,
-                                                     dur / GINGA_SECOND);
+                        string time_end
+                            = xstrbuild ("%" G_GUINT64_FORMAT
+                                         ".%09" G_GUINT64_FORMAT,
+                                         dur / GINGA_SECOND,
+                                         dur % GINGA_SECOND);
                         TRACE ("time_end in %ss", time_end.c_str ());
                         _player->setProperty ("duration", time_end);
                         this->addDelayedAction (evt, Event::STOP, "", end);
@@ -251,8 +254,10 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
                           {
                             Action act = it->first;
                             Event *evt = act.event;
+                            Time evt_end;
+                            evt->getInterval (nullptr, &evt_end);
                             if (act.transition == Event::START
-                                && it->second < begin)
+                                && it->second < begin && evt_end >= begin)
                               evt->transition (act.transition);
                             it = _delayed.erase (it);
                           }
-- 
2.43.0


From 2ecde26b1513e807e7e8ba49babd416a32a25b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 19/84] fix: do not crash when links act upon the object being
 paused or resumed

---
 lib/Event.cpp |  4 ++++
 lib/Media.cpp | 22 +++++++++++-----------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/lib/Event.cpp b/lib/Event.cpp
index 514f2f6..cc5c228 100644
--- a/lib/Event.cpp
+++ b/lib/Event.cpp
@@ -217,6 +217,10 @@ Event::transition (Event::Transition trans)
   if (unlikely (!_object->beforeTransition (this, trans)))
     return false;
 
+  // The links triggered meanwhile may have changed the state already.
+  if (unlikely (_state != curr))
+    return false;
+
   // Update event state.
   _state = next;
 
diff --git a/lib/Media.cpp b/lib/Media.cpp
index ed92245..4658010 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -285,11 +285,6 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
             if (!evt->isLambda ())
               break; // nothing to do
 
-            // Pause/resume all the media anchors.
-            for (auto e : _events)
-              if (!e->isLambda () && e->getType () == Event::PRESENTATION)
-                _doc->evalAction (e, transition);
-
             // Pause/resume the underlying player.
             g_assert_nonnull (_player);
             if (transition == Event::PAUSE)
@@ -361,14 +356,19 @@ Media::afterTransition (Event *evt, Event::Transition transition)
           break;
 
         case Event::PAUSE:
-          TRACE ("pause %s at %" GINGA_TIME_FORMAT,
-                 evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
-          break; // nothing to do
-
         case Event::RESUME:
-          TRACE ("resume %s at %" GINGA_TIME_FORMAT,
+          TRACE ("%s %s at %" GINGA_TIME_FORMAT,
+                 Event::getEventTransitionAsString (transition).c_str (),
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
-          break; // nothing to do
+          if (!evt->isLambda ())
+            break; // nothing to do
+
+          // Pause/resume all the media anchors.  The links triggered may act
+          // upon this media, so it must be paused/resumed already.
+          for (auto e : _events)
+            if (!e->isLambda () && e->getType () == Event::PRESENTATION)
+              _doc->evalAction (e, transition);
+          break;
 
         case Event::STOP:
         case Event::ABORT:
-- 
2.43.0


From efb6fc90f1d9e84b0cbfba3db78cd9285a210457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 20/84] fix: resolve linkParam references in link assessments

---
 lib/Parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index ab8d927..d4c1c26 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2806,6 +2806,8 @@ borderColor='%s'}",
                         tests_map.insert (
                             std::make_pair (p.first, p.second));
                     }
+                  for (auto &p : *params)
+                    tests_map.insert (std::make_pair (p.first, p.second));
                   switch (type)
                     {
                     case Predicate::FALSUM:
-- 
2.43.0


From 78dbfab213e53018562c98b6102ac8dad89d290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 21/84] fix: string leaked when parsing documents without id

---
 lib/Parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index d4c1c26..8a8952d 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2304,15 +2304,15 @@ bool
 ParserState::pushNcl (ParserState *st, ParserElt *elt)
 {
   Context *root;
-  string *id = new string ();
+  string id;
 
   root = st->_doc->getRoot ();
   g_assert_nonnull (root);
 
-  if (elt->getAttribute ("id", id))
+  if (elt->getAttribute ("id", &id))
     {
-      root->addAlias (*id);
-      st->_doc->setData ("id", id, xstrdelete);
+      root->addAlias (id);
+      st->_doc->setData ("id", new string (id), xstrdelete);
     }
 
   st->objStackPush (root);
-- 
2.43.0


From f4450f6e11e580310fafc2da29d9b7b6044a1e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 22/84] fix: crash on elements using ids reserved by the
 library

---
 lib/Parser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 8a8952d..31d1ebe 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -1091,8 +1091,11 @@ ParserElt::setData (const string &key, void *value, UserDataCleanFunc fn)
 string
 ParserState::genId ()
 {
-  string id = xstrbuild ("__unamed-%d__", _genid++);
-  g_assert_false (isInUniqueSet (id));
+  string id;
+  do
+    id = xstrbuild ("__unamed-%d__", _genid++);
+  while (this->isInUniqueSet (id));
+  this->addToUniqueSet (id);
   return id;
 }
 
@@ -2235,6 +2238,8 @@ ParserState::ParserState (int width, int height)
   _genid = 0;
   _error = ParserState::ERROR_NONE;
   _errorMsg = "no error";
+  this->addToUniqueSet ("__root__");     // reserved by Document
+  this->addToUniqueSet ("__settings__"); // reserved by Document
   this->rectStackPush ({ 0, 0, width, height });
 }
 
-- 
2.43.0


From 632facad2bd9e89b3706d056d9958d51f2a786ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 23/84] fix: crash and leaks on refers to unknown media objects

---
 lib/Parser.cpp | 53 +++++++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 31d1ebe..3256b0a 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2288,6 +2288,13 @@ ParserState::process (xmlDoc *xml)
 
   if (unlikely (!this->processNode (root)))
     {
+      // Destroy the media objects that were referred but never found.
+      set<Media *> orphans;
+      for (auto it : _referMap)
+        if (it.second->getDocument () == nullptr)
+          orphans.insert (it.second);
+      for (auto media : orphans)
+        delete media;
       delete _doc;
       _doc = nullptr;
       return nullptr;
@@ -2434,17 +2441,38 @@ borderColor='%s'}",
         }
     }
 
-  // Resolve media reference to descriptor, i.e., move descriptor attributes
-  // to associated media, and check for unresolved refers.
+  // Check for unresolved refers, and resolve media reference to descriptor,
+  // i.e., move descriptor attributes to associated media.
   if (st->eltCacheIndexByTag ({ "media" }, &media_list) > 0)
     {
+      for (auto media_elt : media_list)
+        {
+          string refer;
+          ParserElt *refer_elt;
+
+          if (!media_elt->getAttribute ("refer", &refer))
+            continue;
+
+          if (unlikely (!st->eltCacheIndexById (refer, &refer_elt,
+                                                { "media" })))
+            {
+              return st->errEltBadAttribute (media_elt->getNode (), "refer",
+                                             refer, "no such media object");
+            }
+          if (refer_elt->getAttribute ("refer", nullptr))
+            {
+              return st->errEltBadAttribute (media_elt->getNode (), "refer",
+                                             refer,
+                                             "cannot refer to a reference");
+            }
+        }
+
       for (auto media_elt : media_list)
         {
           string media_id;
           Media *media;
 
           string desc_id;
-          string refer;
 
           // Move descriptor attributes.
           if (media_elt->getAttribute ("descriptor", &desc_id))
@@ -2475,25 +2503,6 @@ borderColor='%s'}",
                 }
             }
 
-          // Check refer.
-          if (media_elt->getAttribute ("refer", &refer))
-            {
-              ParserElt *refer_elt;
-
-              if (unlikely (!st->eltCacheIndexById (refer, &refer_elt,
-                                                    { "media" })))
-                {
-                  return st->errEltBadAttribute (media_elt->getNode (),
-                                                 "refer", refer,
-                                                 "no such media object");
-                }
-              if (refer_elt->getAttribute ("refer", nullptr))
-                {
-                  return st->errEltBadAttribute (
-                      media_elt->getNode (), "refer", refer,
-                      "cannot refer to a reference");
-                }
-            }
         }
     }
 
-- 
2.43.0


From 2043be711dc985d19c91d89777fdffe97ac98b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 24/84] fix: dangling references to a settings media declared
 after its refers

---
 lib/Parser.cpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 3256b0a..98ce2bd 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -3958,15 +3958,30 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
           st->referMapIndex (id, &tmpMedia);
           if (tmpMedia)
             {
-              auto it = st->_referMap.begin ();
-              while ((*it).second == tmpMedia)
+              for (auto &it : st->_referMap)
+                if (it.second == tmpMedia)
+                  it.second = media;
+              for (auto &it : *tmpMedia->getAliases ())
+                media->addAlias (it.first, it.second);
+              for (auto evt : *tmpMedia->getEvents ())
                 {
-                  st->_referMap[(*it).first] = media;
-                  media->addAlias ((*it).first);
-                  it++;
+                  Time begin, end;
+                  string value = tmpMedia->getProperty (evt->getId ());
+                  if (evt->getType () == Event::ATTRIBUTION)
+                    {
+                      media->addAttributionEvent (evt->getId ());
+                      if (value != "")
+                        media->setProperty (evt->getId (), value);
+                      continue;
+                    }
+                  evt->getInterval (&begin, &end);
+                  if (evt->getLabel () != "")
+                    media->addPresentationEvent (evt->getId (),
+                                                 evt->getLabel ());
+                  else
+                    media->addPresentationEvent (evt->getId (), begin, end);
                 }
-              if (it != st->_referMap.begin ())
-                delete tmpMedia;
+              delete tmpMedia;
             }
 
           gchar *scheme = g_uri_parse_scheme (src.c_str ());
-- 
2.43.0


From 8e4fa02d6d47b8da7c30ff36b0240383ebdf9c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 25/84] fix: ports and switch mappings could not use interfaces
 declared later through refer

---
 lib/Parser.cpp | 202 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 125 insertions(+), 77 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 98ce2bd..49e1f28 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -321,6 +321,8 @@ private:
   // Reference solving.
   bool resolveComponent (Composition *, ParserElt *, Object **);
   bool resolveInterface (Composition *, ParserElt *, Event **);
+  bool resolvePorts (ParserElt *);
+  bool resolveSwitch (ParserElt *);
   string resolveParameter (const string &, const map<string, string> *,
                            const map<string, string> *,
                            const map<string, string> *);
@@ -1808,6 +1810,106 @@ fail:
                                    "no such interface");
 }
 
+/**
+ * @brief Resolves the ports of a context.
+ * @param context_elt The \<body\> or \<context\> element.
+ * @return \c true if successful, or \c false otherwise.
+ */
+bool
+ParserState::resolvePorts (ParserElt *context_elt)
+{
+  Context *ctx;
+  list<string> *ports;
+
+  ctx = _doc->getRoot ();
+  if (context_elt->getTag () != "body")
+    {
+      string id;
+      g_assert (context_elt->getAttribute ("id", &id));
+      ctx = cast (Context *, _doc->getObjectById (id));
+    }
+  g_assert_nonnull (ctx);
+
+  UDATA_GET (context_elt, "ports", &ports);
+  for (auto port_id : *ports)
+    {
+      ParserElt *port_elt;
+      Event *evt;
+
+      g_assert (this->eltCacheIndexById (port_id, &port_elt, { "port" }));
+      if (unlikely (!this->resolveInterface (ctx, port_elt, &evt)))
+        return false;
+
+      ctx->addPort (evt);
+    }
+  return true;
+}
+
+/**
+ * @brief Resolves the components and the mappings of a switch.
+ * @param switch_elt The \<switch\> element.
+ * @return \c true if successful, or \c false otherwise.
+ */
+bool
+ParserState::resolveSwitch (ParserElt *switch_elt)
+{
+  string id;
+  Switch *swtch;
+  list<pair<ParserElt *, Object *> > *rules;
+  list<string> *switchPorts;
+
+  g_assert (switch_elt->getAttribute ("id", &id));
+  swtch = cast (Switch *, _doc->getObjectById (id));
+  g_assert_nonnull (swtch);
+
+  // Resolve bind-rule and default-component  references.
+  UDATA_GET (switch_elt, "rules", &rules);
+  for (auto &it : *rules)
+    {
+      ParserElt *bind_elt;
+      Object *obj;
+
+      bind_elt = it.first;
+      g_assert_nonnull (bind_elt);
+
+      if (unlikely (!this->resolveComponent (swtch, bind_elt, &obj)))
+        return false;
+
+      g_assert_nonnull (obj);
+      it.second = obj;
+    }
+
+  // Resolve switchPort references (each switchPort is added as a new
+  // PresentationEvent, which will be handled internally by the switch).
+  UDATA_GET (switch_elt, "switchPorts", &switchPorts);
+  for (auto switchPort_id : *switchPorts)
+    {
+      ParserElt *switchPort_elt;
+      list<ParserElt *> *mappings;
+
+      g_assert (this->eltCacheIndexById (switchPort_id, &switchPort_elt,
+                                       { "switchPort" }));
+      UDATA_GET (switchPort_elt, "mappings", &mappings);
+
+      list<Event *> mapping_evts;
+      for (auto &mapping_elt : *mappings)
+        {
+          Event *evt;
+          string comp, interf;
+          mapping_elt->getAttribute ("component", &comp);
+          mapping_elt->getAttribute ("interface", &interf);
+
+          if (unlikely (!this->resolveInterface (swtch, mapping_elt, &evt)))
+            return false;
+
+          mapping_evts.push_back (evt);
+        }
+
+      swtch->addSwitchPort (switchPort_id, mapping_evts);
+    }
+  return true;
+}
+
 /**
  * @brief Resolve reference to (bind, link, or ghost) parameter.
  *
@@ -2346,6 +2448,7 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
   list<ParserElt *> desc_list;
   list<ParserElt *> media_list;
   list<ParserElt *> switch_list;
+  list<ParserElt *> context_list;
   list<ParserElt *> link_list;
 
   // Resolve descriptor references to region/transition.
@@ -2506,9 +2609,25 @@ borderColor='%s'}",
         }
     }
 
+  // Resolve the references of switches, nested ones first.
+  st->eltCacheIndexByTag ({ "switch" }, &switch_list);
+  for (auto it = switch_list.rbegin (); it != switch_list.rend (); ++it)
+    {
+      if (unlikely (!st->resolveSwitch (*it)))
+        return false;
+    }
+
+  // Resolve the ports of contexts.
+  st->eltCacheIndexByTag ({ "body", "context" }, &context_list);
+  for (auto context_elt : context_list)
+    {
+      if (unlikely (!st->resolvePorts (context_elt)))
+        return false;
+    }
+
   // Resolve bind rules and default components in switches.
   // (I.e., finish parsing <bindRule> and <defaultComponent>.)
-  if (st->eltCacheIndexByTag ({ "switch" }, &switch_list) > 0)
+  if (switch_list.size () > 0)
     {
       for (auto switch_elt : switch_list)
         {
@@ -3611,35 +3730,16 @@ ParserState::pushContext (ParserState *st, ParserElt *elt)
 /**
  * @brief Ends the processing of \<body\> or \<context\> element.
  *
- * This function resolves context ports and pops the object stack.
+ * This function pops the object stack.  (The context ports are resolved by
+ * ParserState::popNcl().)
  *
  * @param st #ParserState.
  * @param elt Element wrapper.
  * @return \c true if successful, or \c false otherwise.
  */
 bool
-ParserState::popContext (ParserState *st, ParserElt *elt)
+ParserState::popContext (ParserState *st, unused (ParserElt *elt))
 {
-  Context *ctx;
-  list<string> *ports;
-
-  ctx = cast (Context *, st->objStackPeek ());
-  g_assert_nonnull (ctx);
-
-  // Resolve port references.
-  UDATA_GET (elt, "ports", &ports);
-  for (auto port_id : *ports)
-    {
-      ParserElt *port_elt;
-      Event *evt;
-
-      g_assert (st->eltCacheIndexById (port_id, &port_elt, { "port" }));
-      if (unlikely (!st->resolveInterface (ctx, port_elt, &evt)))
-        return false;
-
-      ctx->addPort (evt);
-    }
-
   st->objStackPop ();
   return true;
 }
@@ -3780,7 +3880,8 @@ ParserState::pushMapping (ParserState *st, ParserElt *elt)
 /**
  * @brief Ends the processing of \<switch\> element.
  *
- * This function pops the object stack.
+ * This function pops the object stack.  (The references of the switch are
+ * resolved by ParserState::popNcl().)
  *
  * @param st #ParserState.
  * @param elt Element wrapper.
@@ -3789,59 +3890,6 @@ ParserState::pushMapping (ParserState *st, ParserElt *elt)
 bool
 ParserState::popSwitch (ParserState *st, unused (ParserElt *elt))
 {
-  Switch *swtch;
-  list<pair<ParserElt *, Object *> > *rules;
-  list<string> *switchPorts;
-
-  swtch = cast (Switch *, st->objStackPeek ());
-  g_assert_nonnull (swtch);
-
-  // Resolve bind-rule and default-component  references.
-  UDATA_GET (elt, "rules", &rules);
-  for (auto &it : *rules)
-    {
-      ParserElt *bind_elt;
-      Object *obj;
-
-      bind_elt = it.first;
-      g_assert_nonnull (bind_elt);
-
-      if (unlikely (!st->resolveComponent (swtch, bind_elt, &obj)))
-        return false;
-
-      g_assert_nonnull (obj);
-      it.second = obj;
-    }
-
-  // Resolve switchPort references (each switchPort is added as a new
-  // PresentationEvent, which will be handled internally by the switch).
-  UDATA_GET (elt, "switchPorts", &switchPorts);
-  for (auto switchPort_id : *switchPorts)
-    {
-      ParserElt *switchPort_elt;
-      list<ParserElt *> *mappings;
-
-      g_assert (st->eltCacheIndexById (switchPort_id, &switchPort_elt,
-                                       { "switchPort" }));
-      UDATA_GET (switchPort_elt, "mappings", &mappings);
-
-      list<Event *> mapping_evts;
-      for (auto &mapping_elt : *mappings)
-        {
-          Event *evt;
-          string comp, interf;
-          mapping_elt->getAttribute ("component", &comp);
-          mapping_elt->getAttribute ("interface", &interf);
-
-          if (unlikely (!st->resolveInterface (swtch, mapping_elt, &evt)))
-            return false;
-
-          mapping_evts.push_back (evt);
-        }
-
-      swtch->addSwitchPort (switchPort_id, mapping_evts);
-    }
-
   st->objStackPop ();
 
   return true;
-- 
2.43.0


From 7dae99fa92f7dfb3f73667f3264eb8d5d0115ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 26/84] fix: crash on switches that map to themselves or to
 properties

---
 lib/Parser.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 49e1f28..5a78c3b 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -1876,6 +1876,9 @@ ParserState::resolveSwitch (ParserElt *switch_elt)
         return false;
 
       g_assert_nonnull (obj);
+      if (unlikely (obj == swtch))
+        return this->errElt (bind_elt->getNode (), ERROR_ELT_BAD_ATTRIBUTE,
+                             "switch cannot be a component of itself");
       it.second = obj;
     }
 
@@ -1902,6 +1905,16 @@ ParserState::resolveSwitch (ParserElt *switch_elt)
           if (unlikely (!this->resolveInterface (swtch, mapping_elt, &evt)))
             return false;
 
+          if (unlikely (evt->getObject () == swtch))
+            return this->errEltBadAttribute (
+                mapping_elt->getNode (), "component", comp,
+                "switch cannot be a component of itself");
+
+          if (unlikely (evt->getType () != Event::PRESENTATION))
+            return this->errEltBadAttribute (
+                mapping_elt->getNode (), "interface", interf,
+                "expected a presentation event");
+
           mapping_evts.push_back (evt);
         }
 
-- 
2.43.0


From 587bc5811c1c307d4ba0cebaeb3eee216eba8ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 27/84] fix: transition attributes were mixed up when moved to
 descriptors

---
 lib/Parser.cpp | 55 +++++++++++++-------------------------------------
 1 file changed, 14 insertions(+), 41 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 5a78c3b..49bcd8c 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2474,6 +2474,12 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
           ParserElt *region_elt;
 
           static const string trans_attr[] = { "transIn", "transOut" };
+          static const pair<const char *, const char *> trans_defaults[]
+              = { { "subtype", "" },      { "dur", "0" },
+                  { "startProgress", "0" }, { "endProgress", "0" },
+                  { "direction", "forward" }, { "fadeColor", "" },
+                  { "horzRepeat", "0" },  { "vertRepeat", "0" },
+                  { "borderWidth", "0" }, { "borderColor", "" } };
           string trans_id;
           ParserElt *trans_elt;
 
@@ -2511,47 +2517,14 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
                 }
 
               g_assert (trans_elt->getAttribute ("type", &str));
-              val = "{type='" + str + "',";
-              val += xstrbuild (
-                  "\
-subtype='%s',\
-dur='%s',\
-startProgress='%s',\
-endProgress='%s',\
-direction='%s',\
-fadeColor='%s',\
-horzRepeat='%s',\
-vertRepeat='%s',\
-borderWidth='%s',\
-borderColor='%s'}",
-                  (trans_elt->getAttribute ("subtype", &str)) ? str.c_str ()
-                                                              : "",
-                  +(trans_elt->getAttribute ("dur", &str)) ? str.c_str ()
-                                                           : "0",
-                  +(trans_elt->getAttribute ("startProgress", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("endProgress", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("direction", &str))
-                      ? str.c_str ()
-                      : "forward",
-                  +(trans_elt->getAttribute ("fadeColor", &str))
-                      ? str.c_str ()
-                      : "",
-                  +(trans_elt->getAttribute ("horzRepeat", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("vertRepeat", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("borderWidth", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("borderColor", &str))
-                      ? str.c_str ()
-                      : "");
+              val = "{type='" + str + "'";
+              for (auto it : trans_defaults)
+                {
+                  if (!trans_elt->getAttribute (it.first, &str))
+                    str = it.second;
+                  val += string (",") + it.first + "='" + str + "'";
+                }
+              val += "}";
               desc_elt->setAttribute (trans_attr[i], val);
             }
         }
-- 
2.43.0


From f5bd52a9e751932008dfbfe0e4b5db5292aa8162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 28/84] fix: transitions of imported descriptors were not found

---
 lib/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 49bcd8c..b6b3ef7 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -510,8 +510,8 @@ static map<string, ParserSyntaxElt> parser_syntax_table = {
             { "focusSrc", 0 },
             { "focusSelSrc", 0 },
             { "selBorderColor", 0 },
-            { "transIn", 0 },
-            { "transOut", 0 },
+            { "transIn", ATTR_TYPE_IDREF },
+            { "transOut", ATTR_TYPE_IDREF },
             // extra attributes
             { "left", 0 },
             { "right", 0 },
-- 
2.43.0


From ce6cf6c7a4db03f82dcd7e8cc60f8c85bb35c9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 29/84] fix: crash on regions with malformed positions or sizes

---
 lib/Parser.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index b6b3ef7..f9ee9aa 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2985,6 +2985,16 @@ ParserState::pushRegion (ParserState *st, ParserElt *elt)
   parent_node = elt->getParentNode ();
   g_assert_nonnull (parent_node);
 
+  for (const char *name :
+       { "left", "top", "width", "height", "right", "bottom" })
+    {
+      if (elt->getAttribute (name, &str)
+          && unlikely (!_xstrtod (str, nullptr)))
+        {
+          return st->errEltBadAttribute (elt->getNode (), name, str);
+        }
+    }
+
   screen = st->_rectStack.front ();
   rect = parent = st->rectStackPeek ();
   if (elt->getAttribute ("left", &str))
-- 
2.43.0


From 83ecd07e874f70ba36c6b313958f3ae229b8fdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 30/84] fix: crash on fonts that cannot be loaded

---
 lib/Parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index f9ee9aa..1afe559 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -4338,7 +4338,10 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
       //      FcPatternPrint (new_font);
     }
 
-  return (fontAddStatus == FcTrue);
+  if (unlikely (fontAddStatus != FcTrue))
+    return st->errEltBadAttribute (elt->getNode (), "src", src,
+                                   "cannot load font");
+  return true;
 }
 
 // External API.
-- 
2.43.0


From c179c4b8241e673a7ae1f05c40d9329723ef956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:48 +0000
Subject: [PATCH 31/84] fix: switch ports mapped to ports of nested contexts
 never selected them

---
 lib/Switch.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index 4ea5500..ced26b5 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -120,7 +120,11 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
               selected_evt = nullptr;
               for (Event *e : switchPort_evts)
                 {
-                  if (obj == e->getObject ())
+                  // The event may be within the object (context port).
+                  Object *o = e->getObject ();
+                  while (o != nullptr && o != obj)
+                    o = o->getParent ();
+                  if (o == obj)
                     selected_evt = e;
                 }
               if (selected_evt == nullptr)
-- 
2.43.0


From 55fc30747128c7da16578adff659ea0fdbc1e3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:48 +0000
Subject: [PATCH 32/84] fix: fonts of imported bases were not searched beside
 the imported document

---
 lib/Parser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 1afe559..ae2db00 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -4282,7 +4282,7 @@ ParserState::pushBind (ParserState *st, ParserElt *elt)
 bool
 ParserState::pushFont (ParserState *st, ParserElt *elt)
 {
-  string family, src, style = "normal", weight = "normal";
+  string family, src, base, style = "normal", weight = "normal";
 
   g_assert (elt->getAttribute ("fontFamily", &family));
   g_assert (elt->getAttribute ("src", &src));
@@ -4291,9 +4291,11 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
   elt->getAttribute ("fontWeight", &weight);
 
   // fixme:  We should also handle remote URIs; g_file_move could help us.
-  if (st->getURI () != "")
+  if (!st->aliasStackPeek (nullptr, &base)) // not within an import
+    base = st->getURI ();
+  if (base != "")
     {
-      xmlChar *s = xmlBuildURI (toXmlChar (src), toXmlChar (st->getURI ()));
+      xmlChar *s = xmlBuildURI (toXmlChar (src), toXmlChar (base));
       src = toCPPString (s);
       xmlFree (s);
       src = xpathfromuri (src.c_str ());
-- 
2.43.0


From 2818d49252eef82374a9b3b5038d8c9dfd1362aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 33/84] fix: malformed, negative and out of range times were
 accepted

---
 lib/PlayerVideo.cpp |  7 ++++--
 lib/aux-ginga.cpp   | 53 ++++++++++++++++++++++-----------------------
 2 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 82e7bf8..a5843ca 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -554,7 +554,10 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
             TRACE ("time: %" GST_TIME_FORMAT " / %" GST_TIME_FORMAT,
                    GST_TIME_ARGS (cur), GST_TIME_ARGS (dur));
 
-            try_parse_time (value, &t);
+            // The sign, if any, makes it relative to the current time.
+            bool relative = value[0] == '+' || value[0] == '-';
+            if (!try_parse_time (relative ? value.substr (1) : value, &t))
+              break;
             next = (gint64) (t);
             if (xstrhasprefix (value, "+"))
               {
@@ -565,7 +568,7 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
               }
             else if (xstrhasprefix (value, "-"))
               {
-                next = (next - cur < 0) ? 0 : next - cur;
+                next = (cur - next < 0) ? 0 : cur - next;
               }
             seek (next);
           }
diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index 263db7e..a786a59 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -185,7 +185,7 @@ try_parse_table (const string &s, map<string, string> *result)
 }
 
 /**
- * Parses time string ("Ns" or "NN:NN:NN").
+ * Parses time string ("N", "Ns" or "NN:NN:NN"; the empty string is zero).
  * @param s Time string.
  * @param result Variable to store the resulting time.
  * @return True if successful, or false otherwise.
@@ -193,39 +193,38 @@ try_parse_table (const string &s, map<string, string> *result)
 bool
 try_parse_time (const string &s, Time *result)
 {
-  gchar *dup;
+  string str = xstrstrip (s);
+  const gchar *p = str.c_str ();
   gchar *end;
-  double secs;
+  double secs = 0;
 
-  dup = g_strdup (s.c_str ());
-  g_assert_nonnull (dup);
-  g_strchomp (dup);
+  if (str == "")
+    goto success; // no time
 
-  secs = g_strtod (dup, &end);
-  if (*end == '\0' || g_str_equal (end, "s"))
-    goto success;
-
-  if (*end != ':')
-    goto failure;
-
-  end++;
-  secs = 3600 * secs + 60 * g_strtod (end, &end);
-  if (*end != ':')
-    goto failure;
-
-  end++;
-  secs += g_strtod (end, &end);
-  if (*end != '\0')
-    goto failure;
+  for (int unit : { 3600, 60, 1 })
+    {
+      double d;
+      if (unlikely (!g_ascii_isdigit (*p) && *p != '.'))
+        return false;
+      d = g_ascii_strtod (p, &end);
+      if (unlikely (end == p))
+        return false;
+      if (unit == 3600 && (*end == '\0' || g_str_equal (end, "s")))
+        {
+          secs = d;
+          break;
+        }
+      secs += unit * d;
+      if (unlikely (*end != (unit == 1 ? '\0' : ':')))
+        return false;
+      p = end + 1;
+    }
 
 success:
-  g_free (dup);
+  if (unlikely (secs * GINGA_SECOND >= (double) GINGA_TIME_NONE))
+    return false;
   tryset (result, (Time) (secs * GINGA_SECOND));
   return true;
-
-failure:
-  g_free (dup);
-  return false;
 }
 
 // Asserted wrappers for parse_*.
-- 
2.43.0


From a685c41a47d824a979eae1df86703feb9ddd0788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 34/84] fix: switches never selected components that refer to
 other media

---
 lib/Document.cpp | 10 ++++++++++
 lib/Switch.cpp   |  8 ++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index d33130a..77edbf1 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -440,6 +440,16 @@ Document::evalAction (Action init)
         {
           for (const auto &alias : *obj->getAliases ())
             {
+              // The switch ends along with its selected component.
+              Switch *swtch = cast (Switch *, alias.second);
+              if (swtch != nullptr && swtch->getSelected () == obj
+                  && evt->isLambda () && obj->isSleeping ())
+                {
+                  for (auto swtch_evt : *swtch->getEvents ())
+                    if (swtch_evt->getType () == Event::PRESENTATION)
+                      this->evalAction (swtch_evt, act.transition);
+                }
+
               ctx_parent = cast (Context *, alias.second);
               if (ctx_parent && ctx_parent->isOccurring ()
                   && seen.insert (ctx_parent).second)
diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index ced26b5..019acb4 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -73,10 +73,10 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
     return false; // fail
   if (evt->isLambda ())
     {
-      // If we are acting on the switch's @lambda all the @lambda children
-      // events can be selected.
-      for (Object *obj : *(getChildren ()))
-        switchPort_evts.insert (obj->getLambda ());
+      // If we are acting on the switch's @lambda all the @lambda events of
+      // its components can be selected.
+      for (auto &item : _rules)
+        switchPort_evts.insert (item.first->getLambda ());
     }
   else
     {
-- 
2.43.0


From df486a98ec10fb3fc7ae2216e54b256d7b954024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 35/84] fix: numbers beyond the range of int wrapped around
 before being clamped

---
 lib/aux-ginga.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index a786a59..b634c21 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -272,18 +272,11 @@ parse_percent (const string &s, int base, int min, int max)
 {
   bool percent;
   double d;
-  int result;
 
   d = xstrtodorpercent (s, &percent);
   if (percent)
-    {
-      result = (int) lround (d * base);
-    }
-  else
-    {
-      result = (int) lround (d);
-    }
-  return (int) CLAMP (result, min, max);
+    d *= base;
+  return (int) lround (CLAMP (d, (double) min, (double) max));
 }
 
 /**
-- 
2.43.0


From 20f9d5be8f8a1dd88735fbd70e6c88f02308e3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 36/84] fix: table literals of less than two characters were
 read past their ends

---
 lib/aux-ginga.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index b634c21..1ee28a8 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -155,7 +155,7 @@ try_parse_table (const string &s, map<string, string> *result)
   map<string, string> tab;
 
   str = xstrstrip (s);
-  if (str.front () != '{' || str.back () != '}')
+  if (str.length () < 2 || str.front () != '{' || str.back () != '}')
     return false;
 
   str.assign (str.substr (1, str.length () - 2));
@@ -172,8 +172,9 @@ try_parse_table (const string &s, map<string, string> *result)
       key = xstrstrip (*pr_it++);
       val = xstrstrip (*pr_it++);
       g_assert (pr_it == pr.end ());
-      if (unlikely (!((val.front () == '\'' && val.back () == '\'')
-                      || (val.front () == '"' && val.back () == '"'))))
+      if (unlikely (val.length () < 2
+                    || !((val.front () == '\'' && val.back () == '\'')
+                         || (val.front () == '"' && val.back () == '"'))))
         {
           return false;
         }
-- 
2.43.0


From 852ef3c83b3dc24a51dbe8cf32624faf6e5a19d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 37/84] fix: contents with null bytes were truncated when read
 from a URI

---
 lib/aux-ginga.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index 1ee28a8..22bd896 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -732,7 +732,7 @@ xurigetcontents (const string &uri, string &data)
   if (ret)
     {
       g_assert_null (err);
-      data = string (gdata);
+      data = string (gdata, len);
       g_free (gdata);
     }
   else
@@ -744,6 +744,7 @@ xurigetcontents (const string &uri, string &data)
 
       WARNING ("cannot load content from uri '%s': %s", uri.c_str (),
                msg.c_str ());
+      g_error_free (err);
     }
 
   g_object_unref (file);
-- 
2.43.0


From 2ff3fb82fda76372c0d228553282a8cfec52cd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 38/84] fix: URI conversions passed uninitialized error
 pointers to GLib

---
 lib/aux-ginga.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index 22bd896..413aaa8 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -604,7 +604,9 @@ xpathisuri (const string &path)
 {
   gchar *dup = g_uri_parse_scheme (path.c_str ());
   // strlen (dup) = 1 means schemes for windows paths, e.g. C: and D:
-  return (dup == NULL || strlen (dup) == 1) ? false : (g_free (dup), true);
+  bool result = dup != NULL && strlen (dup) > 1;
+  g_free (dup);
+  return result;
 }
 
 /**
@@ -655,7 +657,7 @@ string
 xpathfromuri (const string &uri)
 {
   string path;
-  GError *err;
+  GError *err = nullptr;
 
   gchar *g_path = g_filename_from_uri (uri.c_str (), nullptr, &err);
   if (g_path == nullptr)
@@ -691,7 +693,7 @@ xurifromsrc (const string &src, const string &basesrc = "")
       else
         abs = xpathbuildabs (basesrc, src);
 
-      GError *err;
+      GError *err = nullptr;
       gchar *g_uri = g_filename_to_uri (abs.c_str (), NULL, &err);
       if (g_uri == nullptr)
         {
-- 
2.43.0


From 1bb1bbe3768baddbce28ed6e427ef7f70583e873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 39/84] fix: removing absent user data erased the end of the
 map

---
 lib/aux-ginga.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index 413aaa8..00dd573 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -785,7 +785,8 @@ UserData::setData (const string &key, void *value, UserDataCleanFunc fn)
     it->second.second (it->second.first);
   if (value == nullptr)
     {
-      _udata.erase (it);
+      if (it != _udata.end ())
+        _udata.erase (it);
       return false;
     }
   else
-- 
2.43.0


From 089549c5df2d96350e654eb7ac697416da8235aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:52 +0000
Subject: [PATCH 40/84] fix: URIs of imported documents were taken for relative
 paths

---
 lib/Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index ae2db00..7cb629e 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -3601,7 +3601,8 @@ ParserState::pushImportBase (ParserState *st, ParserElt *elt)
     main_uri = st->getURI ();
 
   // if imported_uri is relative path build a new path based in main_uri
-  if (!xpathisabs (imported_uri) && main_uri != "")
+  if (!xpathisuri (imported_uri) && !xpathisabs (imported_uri)
+      && main_uri != "")
     {
       imported_uri = xpathbuild (xpathdirname (xpathfromuri (main_uri)),
                                  imported_uri);
-- 
2.43.0


From af1f0dd53588984ce94242e53a7b9897c8789391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 41/84] fix: events and components missing from NCL-ltab tables
 crashed the parser

---
 lib/ParserLua.cpp | 81 ++++++++++++++++++++++++-----------------------
 1 file changed, 42 insertions(+), 39 deletions(-)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index 3032dc1..2ef499a 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -49,42 +49,50 @@ static int l_parse_predicate (lua_State *L);
 
 // Helper function
 static Event *
-getEventStringAsEvent (string str, Context *parent)
+getEventStringAsEvent (lua_State *L, const char *str, Context *parent)
 {
-  Object *obj;
-  string id, evt;
+  Object *obj = nullptr;
+  Event *event = nullptr;
 
-  size_t at = str.find ('@');
-
-  if (at != str.npos) // presentation
+  // The error is thrown only after the strings below are gone.
   {
-    id = str.substr (0, at);
-    evt = str.substr (at + 1, str.npos);
-    obj = parent->getChildById (id);
+    string name = str;
+    size_t at = name.find_first_of ("@.<");
+    if (at != string::npos)
+      {
+        string evt = name.substr (at + 1);
+        obj = parent->getChildById (name.substr (0, at));
+
+        if (obj == nullptr)
+          {
+            event = nullptr;
+          }
+        else if (name[at] == '@') // presentation
+          {
+            // only lambda should have '@' as prefix? this seems strange
+            if (xstrcasecmp ("lambda", evt) == 0)
+              evt = "@lambda";
+            event = obj->getEvent (Event::PRESENTATION, evt);
+          }
+        else if (name[at] == '.') // attribution
+          {
+            event = obj->getEvent (Event::ATTRIBUTION, evt);
+          }
+        else if (evt != "" && evt[evt.length () - 1] == '>') // selection
+          {
+            evt.erase (evt.length () - 1);
+            obj->addSelectionEvent (evt);
+            event = obj->getSelectionEvent (evt);
+            g_assert_nonnull (event);
+            event->setParameter ("key", evt);
+          }
+      }
+  }
 
-    // only lambda should have '@' as prefix? this seems strange
-    if (xstrcasecmp ("lambda", evt) == 0)
-      evt = "@lambda";
+  if (event == nullptr)
+    luaL_error (L, "bad event: %s", str);
 
-    return obj->getEvent (Event::PRESENTATION, evt);
-  }
-  else if (str.find ('.') != str.npos) // attribution
-  {
-    at = str.find ('.');
-    id = str.substr (0, at);
-    evt = str.substr (at + 1, str.npos);
-    obj = parent->getChildById (id);
-    return obj->getEvent (Event::ATTRIBUTION, evt);
-  }
-  else // selection
-  {
-    at = str.find ('<');
-    id = str.substr (0, at);
-    evt = str.substr (at + 1, str.npos);
-    evt.pop_back ();
-    obj = parent->getChildById (id);
-    return obj->getEvent (Event::SELECTION, evt);
-  }
+  return event;
 }
 
 /* Parsing functions. */
@@ -329,16 +337,13 @@ l_parse_port (lua_State *L)
   Event *event;
   Document *doc;
   Context *parent;
-  string str;
 
   doc = (Document *) lua_touserdata (L, 1);
   g_assert_nonnull (doc);
   parent = (Context *) lua_touserdata (L, 2);
   g_assert_nonnull (parent);
-  str = string (luaL_checkstring (L, -1));
 
-  event = getEventStringAsEvent (str, parent);
-  g_assert_nonnull (event);
+  event = getEventStringAsEvent (L, luaL_checkstring (L, -1), parent);
   parent->addPort (event);
 
   return 0;
@@ -578,8 +583,7 @@ l_parse_link (lua_State *L)
     act.transition = Event::getStringAsTransition (transition);
 
     lua_rawgeti (L, 6, 2); // event
-    string event = luaL_checkstring (L, -1);
-    act.event = getEventStringAsEvent (event, parent);
+    act.event = getEventStringAsEvent (L, luaL_checkstring (L, -1), parent);
 
     lua_rawgeti (L, 6, 3); // predicate
     act.predicate = nullptr;
@@ -617,8 +621,7 @@ l_parse_link (lua_State *L)
     act.transition = Event::getStringAsTransition (transition);
 
     lua_rawgeti (L, 7, 2); // event
-    string event = luaL_checkstring (L, -1);
-    act.event = getEventStringAsEvent (event, parent);
+    act.event = getEventStringAsEvent (L, luaL_checkstring (L, -1), parent);
 
     lua_rawgeti (L, 7, 3); // value
     if (!lua_isnil (L, -1))
-- 
2.43.0


From fab9da1c27fbd3c4b6dcb818bac33c04150a6450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 42/84] fix: rules of NCL-ltab switches were read from a wrong
 stack position

---
 lib/ParserLua.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index 2ef499a..ae577f0 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -307,11 +307,13 @@ l_parse_switch (lua_State *L)
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
-      lua_rawgeti (L, 10, 1);
-      const string id_media = string (luaL_checkstring (L, -1));
-      Object *obj = swtch->getChildById (id_media);
+      luaL_checktype (L, -1, LUA_TTABLE);
+      lua_rawgeti (L, -1, 1);
+      Object *obj = swtch->getChildById (luaL_checkstring (L, -1));
+      if (obj == nullptr)
+        luaL_error (L, "bad component: %s", lua_tostring (L, -1));
 
-      lua_rawgeti (L, 10, 2);
+      lua_rawgeti (L, -2, 2);
       luaL_checktype (L, -1, LUA_TTABLE);
 
       Predicate *predicate = new Predicate (Predicate::CONJUNCTION);
-- 
2.43.0


From 41a482f5be3bad8577909aff0c1f9e163047c616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 43/84] fix: malformed NCL-ltab tables crashed the parser
 instead of being refused

---
 lib/ParserLua.cpp | 188 +++++++++++++++++++++-------------------------
 1 file changed, 84 insertions(+), 104 deletions(-)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index ae577f0..a61b90b 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -95,6 +95,46 @@ getEventStringAsEvent (lua_State *L, const char *str, Context *parent)
   return event;
 }
 
+// Helper function
+static Event::Transition
+getStringAsTransition (lua_State *L, const char *str)
+{
+  if (g_ascii_strcasecmp (str, "start") == 0
+      || g_ascii_strcasecmp (str, "set") == 0)
+    return Event::START;
+  if (g_ascii_strcasecmp (str, "pause") == 0)
+    return Event::PAUSE;
+  if (g_ascii_strcasecmp (str, "resume") == 0)
+    return Event::RESUME;
+  if (g_ascii_strcasecmp (str, "stop") == 0)
+    return Event::STOP;
+  if (g_ascii_strcasecmp (str, "abort") == 0)
+    return Event::ABORT;
+  luaL_error (L, "bad transition: %s", str);
+  return Event::START;
+}
+
+// Helper function: checks that the id is not in use.
+static void
+checkId (lua_State *L, Document *doc, const char *id)
+{
+  if (doc->getObjectByIdOrAlias (id) != nullptr)
+    luaL_error (L, "duplicated id: %s", id);
+}
+
+// Helper function: gets a string field of the table at the given index.
+static string
+getField (lua_State *L, int index, const char *name, const char *def)
+{
+  string result;
+  lua_getfield (L, index, name);
+  if (!lua_isnil (L, -1) || def == nullptr)
+    def = luaL_checkstring (L, -1);
+  result = def;
+  lua_pop (L, 1);
+  return result;
+}
+
 /* Parsing functions. */
 
 /* parse_context (doc, [parent], tab, path) */
@@ -134,6 +174,7 @@ l_parse_context (lua_State *L)
   }
   else // non-root
   {
+    checkId (L, doc, id);
     ctx = new Context (id);
     parent->addChild (ctx);
   }
@@ -141,9 +182,11 @@ l_parse_context (lua_State *L)
   lua_rawgeti (L, 3, 5);
   if (lua_isnil (L, -1) == 0) // children
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
+      luaL_checktype (L, -1, LUA_TTABLE);
       lua_rawgeti (L, -1, 1);
       string child = luaL_checkstring (L, -1);
 
@@ -179,7 +222,7 @@ l_parse_context (lua_State *L)
       }
       else
       {
-        g_assert_not_reached (); // print error message first
+        luaL_error (L, "unexpected tag: %s", lua_tostring (L, -1));
       }
     }
   }
@@ -187,6 +230,7 @@ l_parse_context (lua_State *L)
   lua_rawgeti (L, 3, 4);
   if (lua_isnil (L, -1) == 0) // ports
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
@@ -202,6 +246,7 @@ l_parse_context (lua_State *L)
   lua_rawgeti (L, 3, 6);
   if (lua_isnil (L, -1) == 0) // links
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
@@ -252,15 +297,18 @@ l_parse_switch (lua_State *L)
     lua_error (L);
   }
 
+  checkId (L, doc, id);
   swtch = new Switch (id);
   parent->addChild (swtch);
 
   lua_rawgeti (L, 3, 3);
   if (lua_isnil (L, -1) == 0) // children
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
+      luaL_checktype (L, -1, LUA_TTABLE);
       lua_rawgeti (L, -1, 1);
       string child = luaL_checkstring (L, -1);
 
@@ -296,7 +344,7 @@ l_parse_switch (lua_State *L)
       }
       else
       {
-        g_assert_not_reached (); // print error message first
+        luaL_error (L, "unexpected tag: %s", lua_tostring (L, -1));
       }
     }
   }
@@ -304,6 +352,7 @@ l_parse_switch (lua_State *L)
   lua_rawgeti (L, 3, 4);
   if (lua_isnil (L, -1) == 0) // rules
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
@@ -382,6 +431,7 @@ l_parse_media (lua_State *L)
 
   lua_rawgeti (L, 3, 2);
   id = luaL_checkstring (L, -1);
+  checkId (L, doc, id);
   media = new Media (id);
 
   if (parent == NULL) // error
@@ -393,15 +443,17 @@ l_parse_media (lua_State *L)
   lua_rawgeti (L, 3, 3);
   if (lua_isnil (L, -1) == 0) // have property list
   {
+    luaL_checktype (L, 7, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, 7) != 0)
     {
-      name = lua_tolstring (L, -2, 0);
-      value = lua_tolstring (L, -1, 0);
+      luaL_checktype (L, -2, LUA_TSTRING);
+      name = lua_tostring (L, -2);
 
       if (xstrcasecmp ("src", name) == 0)
       {
         name = "uri";
+        value = luaL_checkstring (L, -1);
         src = string (value);
 
         // resolve relative dir
@@ -416,92 +468,24 @@ l_parse_media (lua_State *L)
       else if ((xstrcasecmp ("transIn", name) == 0)
                || (xstrcasecmp ("transOut", name) == 0))
       {
-        string aux;
-
-        lua_getfield (L, 9, "type");
-        if (lua_isnil (L, -1) == 0)
-        {
-          aux = lua_tolstring (L, -1, 0);
-          str = "{type='" + aux + "',";
-        }
-        else
-        {
-          g_assert_not_reached ();
-        }
-
-        lua_getfield (L, 9, "subtype");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "";
-        str += "subtype='" + aux + "',";
-
-        lua_getfield (L, 9, "dur");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "0";
-        str += "dur='" + aux + "',";
-
-        lua_getfield (L, 9, "startProgress");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "0";
-        str += "startProgress='" + aux + "',";
-
-        lua_getfield (L, 9, "endProgress");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "0";
-        str += "endProgress='" + aux + "',";
-
-        lua_getfield (L, 9, "direction");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "forward";
-        str += "direction='" + aux + "',";
-
-        lua_getfield (L, 9, "fadeColor");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "";
-        str += "fadeColor='" + aux + "',";
-
-        lua_getfield (L, 9, "horzRepeat");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "0";
-        str += "horzRepeat='" + aux + "',";
-
-        lua_getfield (L, 9, "vertRepeat");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "0";
-        str += "vertRepeat='" + aux + "',";
-
-        lua_getfield (L, 9, "borderWidth");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "0";
-        str += "borderWidth='" + aux + "',";
-
-        lua_getfield (L, 9, "borderColor");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "";
-        str += "borderColor='" + aux + "',";
-
+        luaL_checktype (L, 9, LUA_TTABLE);
+        str = "{type='" + getField (L, 9, "type", nullptr) + "',";
+        str += "subtype='" + getField (L, 9, "subtype", "") + "',";
+        str += "dur='" + getField (L, 9, "dur", "0") + "',";
+        str += "startProgress='" + getField (L, 9, "startProgress", "0") + "',";
+        str += "endProgress='" + getField (L, 9, "endProgress", "0") + "',";
+        str += "direction='" + getField (L, 9, "direction", "forward") + "',";
+        str += "fadeColor='" + getField (L, 9, "fadeColor", "") + "',";
+        str += "horzRepeat='" + getField (L, 9, "horzRepeat", "0") + "',";
+        str += "vertRepeat='" + getField (L, 9, "vertRepeat", "0") + "',";
+        str += "borderWidth='" + getField (L, 9, "borderWidth", "0") + "',";
+        str += "borderColor='" + getField (L, 9, "borderColor", "") + "',";
         str += "}";
         value = str.c_str ();
-        lua_pop (L, 11);
+      }
+      else
+      {
+        value = luaL_checkstring (L, -1);
       }
 
       media->addAttributionEvent (name);
@@ -515,15 +499,17 @@ l_parse_media (lua_State *L)
   lua_rawgeti (L, 3, 4);
   if (lua_isnil (L, -1) == 0) // have area list
   {
+    luaL_checktype (L, 5, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, 5) != 0)
     {
+      luaL_checktype (L, -1, LUA_TTABLE);
       lua_rawgeti (L, -1, 1);
-      name = lua_tolstring (L, -1, nullptr);
+      name = luaL_checkstring (L, -1);
 
       lua_pop (L, 1);
       lua_rawgeti (L, -1, 2);
-      value = lua_tolstring (L, -1, nullptr);
+      value = luaL_optstring (L, -1, nullptr);
 
       begin = 0;
       if ((value != NULL)
@@ -535,7 +521,7 @@ l_parse_media (lua_State *L)
 
       lua_pop (L, 1);
       lua_rawgeti (L, -1, 3);
-      value = lua_tolstring (L, -1, 0);
+      value = luaL_optstring (L, -1, nullptr);
 
       end = GINGA_TIME_NONE;
       if ((value != NULL)
@@ -576,13 +562,10 @@ l_parse_link (lua_State *L)
   {
     Action act;
 
+    luaL_checktype (L, 6, LUA_TTABLE);
     lua_rawgeti (L, 6, 1); // transition
-    string transition = luaL_checkstring (L, -1);
-
-    if (xstrcasecmp (transition, "set") == 0)
-      transition = "start";
-
-    act.transition = Event::getStringAsTransition (transition);
+    act.transition
+        = getStringAsTransition (L, luaL_checkstring (L, -1));
 
     lua_rawgeti (L, 6, 2); // event
     act.event = getEventStringAsEvent (L, luaL_checkstring (L, -1), parent);
@@ -614,13 +597,10 @@ l_parse_link (lua_State *L)
   {
     Action act;
 
+    luaL_checktype (L, 7, LUA_TTABLE);
     lua_rawgeti (L, 7, 1); // transition
-    string transition = luaL_checkstring (L, -1);
-
-    if (xstrcasecmp (transition, "set") == 0)
-      transition = "start";
-
-    act.transition = Event::getStringAsTransition (transition);
+    act.transition
+        = getStringAsTransition (L, luaL_checkstring (L, -1));
 
     lua_rawgeti (L, 7, 2); // event
     act.event = getEventStringAsEvent (L, luaL_checkstring (L, -1), parent);
@@ -722,7 +702,7 @@ l_parse_predicate (lua_State *L)
       else if (xstrcasecmp (str, ">=") == 0)
         test = Predicate::GE;
       else
-        g_assert_not_reached ();
+        luaL_error (L, "bad comparator: %s", str.c_str ());
 
       it->setTest (left, test, right);
       break;
-- 
2.43.0


From f00abed0a6d80dd69225253e5bc83a750bd154d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 44/84] fix: error values other than strings aborted the parser
 of NCL-ltab tables

---
 lib/ParserLua.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index a61b90b..a94f06c 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -732,6 +732,14 @@ l_parse_predicate (lua_State *L)
 
 // External API.
 
+/// Helper function: gets the error message on top of the stack.
+static string
+getErrorMessage (lua_State *L)
+{
+  const char *str = lua_tostring (L, -1);
+  return (str != nullptr) ? str : "unknown error";
+}
+
 /// Helper function used by Parser::parseBuffer() and Parser::parseFile().
 static Document *
 process (lua_State *L, const string &path, string *errmsg)
@@ -747,7 +755,7 @@ process (lua_State *L, const string &path, string *errmsg)
   if (unlikely (lua_pcall (L, 4, 0, 0) != LUA_OK))
   {
     delete doc;
-    tryset (errmsg, g_strdup (luaL_checkstring (L, -1)));
+    tryset (errmsg, getErrorMessage (L));
     return nullptr;
   }
 
@@ -782,7 +790,7 @@ ParserLua::parseBuffer (const void *buf, size_t size, string *errmsg)
   err = luaL_dostring (L, str);
   if (unlikely (err != LUA_OK))
   {
-    tryset (errmsg, g_strdup (luaL_checkstring (L, -1)));
+    tryset (errmsg, getErrorMessage (L));
     goto done;
   }
 
@@ -815,7 +823,7 @@ ParserLua::parseFile (const string &path, string *errmsg)
   err = luaL_dofile (L, path.c_str ());
   if (unlikely (err != LUA_OK))
   {
-    tryset (errmsg, g_strdup (luaL_checkstring (L, -1)));
+    tryset (errmsg, getErrorMessage (L));
     goto done;
   }
 
-- 
2.43.0


From 411174033f0cae54cab8d801407f613140406471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 45/84] fix: NCL-ltab links without conditions or actions
 aborted the parser

---
 lib/ParserLua.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index a94f06c..517c6d4 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -636,6 +636,9 @@ l_parse_link (lua_State *L)
     lua_pop (L, 5);
   }
 
+  if (conditions.empty () || actions.empty ())
+    luaL_error (L, "link without conditions or actions");
+
   parent->addLink (conditions, actions);
   return 0;
 }
-- 
2.43.0


From 4205eb7a8037082ed9ef4e215258200008712f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:39 +0000
Subject: [PATCH 46/84] fix: percentages of property bottom were relative to
 the media's own height

---
 lib/Player.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 6280960..599ead4 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -722,8 +722,7 @@ Player::doSetProperty (Property code, unused (const string &name),
       {
         int height = _formatter->getOptionInt ("height");
         _prop.rect.y = height - _prop.rect.height
-                       - ginga::parse_percent (value, _prop.rect.height, 0,
-                                               G_MAXINT);
+                       - ginga::parse_percent (value, height, 0, G_MAXINT);
         _dirty = true;
         break;
       }
-- 
2.43.0


From 3d5e62dd565c2353d4509d8196f1e6fe3200318b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:31 +0000
Subject: [PATCH 47/84] fix: resize ignored media without explicit width or
 height

---
 lib/Formatter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index dc63f3d..eb42308 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -215,8 +215,9 @@ Formatter::resize (int width, int height)
 
       UPDATE_IF_HAVE ("top");
       UPDATE_IF_HAVE ("left");
-      UPDATE_IF_HAVE ("width");
-      UPDATE_IF_HAVE ("height");
+      // If unset, these default to the size of the screen.
+      media->setProperty ("width", media->getProperty ("width"));
+      media->setProperty ("height", media->getProperty ("height"));
       UPDATE_IF_HAVE ("bottom");
       UPDATE_IF_HAVE ("right");
     }
-- 
2.43.0


From 5b1206b6ea8c9eeaf621024048382c7c4a8d41d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:26 +0000
Subject: [PATCH 48/84] fix: right and bottom of regions were applied again
 relative to the screen

---
 lib/Parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 7cb629e..ecfd9f8 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2495,8 +2495,11 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
                                                  "region", region_id,
                                                  "no such region");
                 }
+              // Attributes right and bottom are already resolved into left and
+              // top (see pushRegion).
               for (auto it : *region_elt->getAttributes ())
-                if (it.first != "id")
+                if (it.first != "id" && it.first != "right"
+                    && it.first != "bottom")
                   desc_elt->setAttribute (it.first, it.second);
             }
 
-- 
2.43.0


From 1e87f49f887712703545bdedc889bc7b6fa2130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:43 +0000
Subject: [PATCH 49/84] fix: text media of zero width or height aborted the
 player

---
 lib/PlayerText.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/PlayerText.cpp b/lib/PlayerText.cpp
index b1b170f..f3e0d70 100644
--- a/lib/PlayerText.cpp
+++ b/lib/PlayerText.cpp
@@ -169,6 +169,11 @@ PlayerText::reload ()
 {
   string text;
 
+  // There is nothing to render (and cairo, pango cannot) while the rectangle
+  // is empty; _dirty remains set, so this is retried when it grows.
+  if (Player::_prop.rect.width <= 0 || Player::_prop.rect.height <= 0)
+    return;
+
   if (unlikely (!xurigetcontents (Player::_prop.uri, text)))
     {
       ERROR ("cannot load text file %s", Player::_prop.uri.c_str ());
-- 
2.43.0


From 07cfd4e4bf0ef7165d886e3db0589ddc11d361ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:04 +0000
Subject: [PATCH 50/84] fix: default of fontBgColor was left uninitialised in
 text media

---
 lib/PlayerText.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PlayerText.cpp b/lib/PlayerText.cpp
index f3e0d70..f97915a 100644
--- a/lib/PlayerText.cpp
+++ b/lib/PlayerText.cpp
@@ -154,7 +154,7 @@ PlayerText::PlayerText (Formatter *formatter, Media *media)
 {
   // Initialize handled properties.
   static set<string> handled = {
-    "fontColor",   "bgColor",    "fontFamily", "fontSize",  "fontStyle",
+    "fontColor",   "fontBgColor", "fontFamily", "fontSize",  "fontStyle",
     "fontVariant", "fontWeight", "horzAlign",  "vertAlign",
   };
   this->resetProperties (&handled);
-- 
2.43.0


From 85574f1531345ccf93d0f5d5bab8114d9c032033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 51/84] fix: media whose type has no player aborted the
 presentation

---
 lib/Player.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 599ead4..33bc0b0 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -612,9 +612,6 @@ Player::createPlayer (Formatter *formatter, Media *media, const string &uri,
         {
           WARNING ("unknown mime '%s': creating an empty player",
                    mime.c_str ());
-          if (!media->getProperty ("uri").empty ())
-            ERROR ("media from \"application/x-ginga-timer\" type should "
-                   "not have src");
         }
     }
 
-- 
2.43.0


From 54b105b4965ab5e1c0d03ae1b2552c1641ed5f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:37 +0000
Subject: [PATCH 52/84] fix: animating bounds, location or size read past the
 end of the value list

---
 lib/Player.cpp         | 26 +++++++++++++++++++++++++-
 lib/PlayerAnimator.cpp | 37 +------------------------------------
 2 files changed, 26 insertions(+), 37 deletions(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 33bc0b0..bc8b737 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -349,7 +349,31 @@ void
 Player::schedulePropertyAnimation (const string &name, const string &from,
                                    const string &to, Time dur)
 {
-  _animator->schedule (name, from, to, dur);
+  list<string> names;
+  list<string> values;
+
+  if (name == "bounds")
+    names = { "left", "top", "width", "height" };
+  else if (name == "location")
+    names = { "left", "top" };
+  else if (name == "size")
+    names = { "width", "height" };
+  else
+    {
+      _animator->schedule (name, from, to, dur);
+      return;
+    }
+
+  // Animate each component.
+  if (unlikely (!ginga::try_parse_list (to, ',', names.size (),
+                                        names.size (), &values)))
+    {
+      ERROR ("property '%s': bad value '%s'", name.c_str (), to.c_str ());
+    }
+
+  auto it = values.begin ();
+  for (auto component : names)
+    _media->setProperty (component, *it++, dur);
 }
 
 void
diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index e091e0d..fb49abc 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -52,42 +52,7 @@ PlayerAnimator::schedule (const string &name, const string &from,
   TRACE ("%s from '%s' to '%s' in %" GINGA_TIME_FORMAT, name.c_str (),
          from.c_str (), to.c_str (), GINGA_TIME_ARGS (dur));
 
-  list<string> list_pre = { "", "", "", "" };
-  list<string> list_pos;
-
-  if (name == "bounds")
-    {
-      if (from != "")
-        list_pre = ginga::parse_list (from, ',', 4, 4);
-      list_pos = ginga::parse_list (to, ',', 4, 4);
-      auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
-      this->doSchedule ("left", *pre++, *pos++, dur);
-      this->doSchedule ("top", *pre++, *pos++, dur);
-      this->doSchedule ("width", *pre++, *pos++, dur);
-      this->doSchedule ("height", *pre++, *pos++, dur);
-    }
-  else if (name == "location")
-    {
-      if (from != "")
-        list_pre = ginga::parse_list (from, ',', 2, 2);
-      list_pos = ginga::parse_list (to, ',', 2, 2);
-      auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
-      this->doSchedule ("left", *pre++, *pos++, dur);
-      this->doSchedule ("top", *pre++, *pos++, dur);
-    }
-  else if (name == "size")
-    {
-      if (from != "")
-        list_pre = ginga::parse_list (from, ',', 2, 2);
-      list_pos = ginga::parse_list (to, ',', 2, 2);
-      auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
-      this->doSchedule ("width", *pre++, *pos++, dur);
-      this->doSchedule ("height", *pre++, *pos++, dur);
-    }
-  else if (name == "background")
+  if (name == "background")
     {
       Color pre = { 0, 0, 0, 255 };
       Color pos;
-- 
2.43.0


From a21ecbf6ae3ffe9000f8ef6b0e11db3de67bfed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:59 +0000
Subject: [PATCH 53/84] fix: transparency was animated towards its complement

---
 lib/PlayerAnimator.cpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index fb49abc..9598d2d 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -74,6 +74,14 @@ PlayerAnimator::schedule (const string &name, const string &from,
       this->doSchedule ("background:g", pre_g, pos_g, dur);
       this->doSchedule ("background:b", pre_b, pos_b, dur);
     }
+  else if (name == "transparency")
+    {
+      // What is drawn is the opacity, i.e., the complement of transparency.
+      string pre_a = (from == "") ? "" : xstrbuild (
+          "%d", 255 - (int) ginga::parse_pixel (from));
+      string pos_a = xstrbuild ("%d", 255 - (int) ginga::parse_pixel (to));
+      this->doSchedule ("alpha", pre_a, pos_a, dur);
+    }
   else
     {
       this->doSchedule (name, from, to, dur);
@@ -204,7 +212,7 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
         {
           UPDATE (info, double, bgColor->blue, round, 0., 1.);
         }
-      else if (name == "transparency")
+      else if (name == "alpha")
         {
           UPDATE (info, guint8, *alpha, lround, 0, 255);
         }
@@ -328,7 +336,7 @@ PlayerAnimator::scheduleTransition (const string &notificationType,
         }
       else
         {
-          this->schedule ("transparency", "0", to_string (*alpha),
+          this->schedule ("alpha", "0", to_string (*alpha),
                           _transIn->dur);
         }
     }
@@ -367,12 +375,6 @@ PlayerAnimator::updateSchedule (AnimInfo *info, const string &name,
         current = ginga::parse_percent (from, width, 0, G_MAXINT);
       target = ginga::parse_percent (to, width, 0, G_MAXINT);
     }
-  else if (name == "transparency" || name == "background")
-    {
-      if (from != "")
-        current = ginga::parse_percent (from, 255, 0, 255);
-      target = ginga::parse_percent (to, 255, 0, 255);
-    }
   else
     {
       if (from != "")
@@ -413,12 +415,6 @@ PlayerAnimator::doSchedule (const string &name, const string &from,
         current = ginga::parse_percent (from, width, 0, G_MAXINT);
       target = ginga::parse_percent (to, width, 0, G_MAXINT);
     }
-  else if (name == "transparency" || name == "background")
-    {
-      if (from != "")
-        current = ginga::parse_percent (from, 255, 0, 255);
-      target = ginga::parse_percent (to, 255, 0, 255);
-    }
   else
     {
       if (from != "")
-- 
2.43.0


From f4180c209782e2c3af54fed9968780f13b58030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:59 +0000
Subject: [PATCH 54/84] fix: animations without a starting value began at the
 first redraw

---
 lib/PlayerAnimator.cpp | 13 +++++++------
 lib/PlayerAnimator.h   |  4 ++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index 9598d2d..60fa8bc 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -103,7 +103,7 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
   G_STMT_START                                                             \
   {                                                                        \
     if (!(info)->isInit ())                                                \
-      (info)->init (var, *_time);                                          \
+      (info)->init (var);                                                  \
     (info)->update (*_time);                                               \
     var = (Type) CLAMP (rnd ((info)->getCurrent ()), min, max);            \
   }                                                                        \
@@ -422,17 +422,19 @@ PlayerAnimator::doSchedule (const string &name, const string &from,
       target = ginga::parse_percent (to, 100, 0, G_MAXINT);
     }
 
-  info = new AnimInfo (name, current, target, dur);
+  info = new AnimInfo (name, current, target, dur, *_time);
   if (from != "")
-    info->init (current, *_time);
+    info->init (current);
 
   _scheduled.push_back (info);
 }
 
 // AnimInfo.
 
-AnimInfo::AnimInfo (const string &name, double from, double to, Time dur)
+AnimInfo::AnimInfo (const string &name, double from, double to, Time dur,
+                    Time start)
 {
+  _last_update = start;
   _name = name;
   _current = from;
   _target = to;
@@ -507,7 +509,7 @@ AnimInfo::setStateNode (int state)
 }
 
 void
-AnimInfo::init (double current, Time time)
+AnimInfo::init (double current)
 {
   g_assert (!_init);
   _current = current;
@@ -516,7 +518,6 @@ AnimInfo::init (double current, Time time)
   else
     _speed = 0;
   _init = true;
-  _last_update = time;
 }
 
 void
diff --git a/lib/PlayerAnimator.h b/lib/PlayerAnimator.h
index b71cf74..3ab4b4b 100644
--- a/lib/PlayerAnimator.h
+++ b/lib/PlayerAnimator.h
@@ -28,7 +28,7 @@ namespace ginga {
 class AnimInfo
 {
 public:
-  AnimInfo (const string &, double, double, Time);
+  AnimInfo (const string &, double, double, Time, Time);
   ~AnimInfo ();
 
   string getName ();
@@ -42,7 +42,7 @@ public:
   bool isDone ();
   bool isInit ();
 
-  void init (double current, Time time);
+  void init (double current);
   void update (Time time);
 
 private:
-- 
2.43.0


From 6ba57ef85e87583fbf47265935a153c126b79ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:04 +0000
Subject: [PATCH 55/84] fix: animating the background jumped to white or black

---
 lib/PlayerAnimator.cpp | 53 ++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index 60fa8bc..d9fd802 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -54,25 +54,20 @@ PlayerAnimator::schedule (const string &name, const string &from,
 
   if (name == "background")
     {
-      Color pre = { 0, 0, 0, 255 };
-      Color pos;
-
-      string pre_r, pre_g, pre_b;
-      string pos_r, pos_g, pos_b;
-
-      pre = ginga::parse_color (from);
-      pre_r = xstrbuild ("%d", (int) CLAMP (pre.red * 255, 0, 255));
-      pre_g = xstrbuild ("%d", (int) CLAMP (pre.green * 255, 0, 255));
-      pre_b = xstrbuild ("%d", (int) CLAMP (pre.blue * 255, 0, 255));
-
-      pos = ginga::parse_color (to);
-      pos_r = xstrbuild ("%d", (int) CLAMP (pos.red * 255, 0, 255));
-      pos_g = xstrbuild ("%d", (int) CLAMP (pos.green * 255, 0, 255));
-      pos_b = xstrbuild ("%d", (int) CLAMP (pos.blue * 255, 0, 255));
-
-      this->doSchedule ("background:r", pre_r, pos_r, dur);
-      this->doSchedule ("background:g", pre_g, pos_g, dur);
-      this->doSchedule ("background:b", pre_b, pos_b, dur);
+      // From the color being shown to the given one.
+      Color pos = ginga::parse_color (to);
+      this->doSchedule ("background:r", "",
+                        xstrbuild ("%d", (int) lround (pos.red * 255)),
+                        dur);
+      this->doSchedule ("background:g", "",
+                        xstrbuild ("%d", (int) lround (pos.green * 255)),
+                        dur);
+      this->doSchedule ("background:b", "",
+                        xstrbuild ("%d", (int) lround (pos.blue * 255)),
+                        dur);
+      this->doSchedule ("background:a", "",
+                        xstrbuild ("%d", (int) lround (pos.alpha * 255)),
+                        dur);
     }
   else if (name == "transparency")
     {
@@ -109,6 +104,16 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
   }                                                                        \
   G_STMT_END
 
+// Color components are animated in the range 0-255.
+#define UPDATE_COLOR(info, var)                                            \
+  G_STMT_START                                                             \
+  {                                                                        \
+    double _c = (var) *255.;                                               \
+    UPDATE (info, double, _c, , 0., 255.);                                 \
+    var = _c / 255.;                                                       \
+  }                                                                        \
+  G_STMT_END
+
   g_assert_nonnull (rect);
   g_assert_nonnull (bgColor);
   g_assert_nonnull (alpha);
@@ -202,15 +207,19 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
         }
       else if (name == "background:r")
         {
-          UPDATE (info, double, bgColor->red, round, 0., 1.);
+          UPDATE_COLOR (info, bgColor->red);
         }
       else if (name == "background:g")
         {
-          UPDATE (info, double, bgColor->green, round, 0., 1.);
+          UPDATE_COLOR (info, bgColor->green);
         }
       else if (name == "background:b")
         {
-          UPDATE (info, double, bgColor->blue, round, 0., 1.);
+          UPDATE_COLOR (info, bgColor->blue);
+        }
+      else if (name == "background:a")
+        {
+          UPDATE_COLOR (info, bgColor->alpha);
         }
       else if (name == "alpha")
         {
-- 
2.43.0


From 5ef794157c8160f34f0c54ddbb28140e626435d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:04 +0000
Subject: [PATCH 56/84] fix: animations overrode values attributed after they
 began

---
 lib/Player.cpp         |  3 +++
 lib/PlayerAnimator.cpp | 35 +++++++++++++++++++++++++++++++++--
 lib/PlayerAnimator.h   |  1 +
 3 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index bc8b737..3e250ad 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -309,6 +309,9 @@ Player::setProperty (const string &name, const string &value)
       && this->getProperty ("type") != "application/x-ginga-NCLua")
     goto done;
 
+  // The new value replaces that of any animation still running.
+  _animator->cancel (name);
+
   if (_value == "")
     {
       use_defval = true;
diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index d9fd802..7a7522c 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -49,6 +49,9 @@ PlayerAnimator::schedule (const string &name, const string &from,
                           const string &to, Time dur)
 {
 
+  // The property is taken over from any animation still running.
+  bool running = this->cancel (name);
+
   TRACE ("%s from '%s' to '%s' in %" GINGA_TIME_FORMAT, name.c_str (),
          from.c_str (), to.c_str (), GINGA_TIME_ARGS (dur));
 
@@ -72,15 +75,43 @@ PlayerAnimator::schedule (const string &name, const string &from,
   else if (name == "transparency")
     {
       // What is drawn is the opacity, i.e., the complement of transparency.
-      string pre_a = (from == "") ? "" : xstrbuild (
+      string pre_a = (running || from == "") ? "" : xstrbuild (
           "%d", 255 - (int) ginga::parse_pixel (from));
       string pos_a = xstrbuild ("%d", 255 - (int) ginga::parse_pixel (to));
       this->doSchedule ("alpha", pre_a, pos_a, dur);
     }
   else
     {
-      this->doSchedule (name, from, to, dur);
+      this->doSchedule (name, running ? "" : from, to, dur);
+    }
+}
+
+/**
+ * @brief Removes the running animations of property.
+ * @param name Property name.
+ * @return True if there were such animations, or false otherwise.
+ */
+bool
+PlayerAnimator::cancel (const string &name)
+{
+  string prefix = (name == "transparency") ? "alpha" : name;
+  bool found = false;
+
+  for (auto it = _scheduled.begin (); it != _scheduled.end ();)
+    {
+      string s = (*it)->getName ();
+      if (s == prefix || xstrhasprefix (s, prefix + ":"))
+        {
+          delete *it;
+          it = _scheduled.erase (it);
+          found = true;
+        }
+      else
+        {
+          ++it;
+        }
     }
+  return found;
 }
 
 static bool
diff --git a/lib/PlayerAnimator.h b/lib/PlayerAnimator.h
index 3ab4b4b..b29ebd1 100644
--- a/lib/PlayerAnimator.h
+++ b/lib/PlayerAnimator.h
@@ -88,6 +88,7 @@ public:
   ~PlayerAnimator ();
   void clear ();
   void schedule (const string &, const string &, const string &, Time);
+  bool cancel (const string &);
   void update (Rect *, Color *, guint8 *, list<int> *);
   void setTransitionProperties (const string &, const string &);
   void scheduleTransition (const string &, Rect *, Color *, guint8 *,
-- 
2.43.0


From 681370a9437f7588ee9e75f2b626fde61e16e8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 57/84] fix: properties right, bottom, bounds, location and
 size took effect when declared without value

---
 lib/Media.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index 4658010..cd60d33 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -194,8 +194,10 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
                     if (unlikely (_player == nullptr))
                       return false; // fail
 
+                    // Properties declared without value have no effect.
                     for (auto it : _properties)
-                      _player->setProperty (it.first, it.second);
+                      if (it.second != "")
+                        _player->setProperty (it.first, it.second);
 
                     g_assert_nonnull (_player);
                     // Start underlying player.
-- 
2.43.0


From 0b3de6c02ed11387d10e253f59446f442b7fa48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 58/84] fix: attributions with duration to properties that
 cannot be animated had no effect

---
 lib/Player.cpp         | 20 ++++++++++++++++++++
 lib/PlayerAnimator.cpp |  3 +--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 3e250ad..4b17169 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -355,6 +355,26 @@ Player::schedulePropertyAnimation (const string &name, const string &from,
   list<string> names;
   list<string> values;
 
+  switch (to != "" ? Player::getPlayerProperty (name, nullptr)
+                   : Player::PROP_UNKNOWN)
+    {
+    case PROP_LEFT:
+    case PROP_TOP:
+    case PROP_WIDTH:
+    case PROP_HEIGHT:
+    case PROP_TRANSPARENCY:
+    case PROP_BOUNDS:
+    case PROP_LOCATION:
+    case PROP_SIZE:
+      break;
+    case PROP_BACKGROUND:
+      _animator->schedule ("background", from, to, dur);
+      return;
+    default: // cannot be animated
+      this->setProperty (name, to);
+      return;
+    }
+
   if (name == "bounds")
     names = { "left", "top", "width", "height" };
   else if (name == "location")
diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index 7a7522c..c7d1e87 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -258,8 +258,7 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
         }
       else
         {
-          WARNING ("do not know how to animate property '%s'",
-                   name.c_str ());
+          g_assert_not_reached ();
         }
     }
 
-- 
2.43.0


From 168768031d2a48aef856eef84fd8fd916803d12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 59/84] fix: animations and transitions were never freed

---
 lib/PlayerAnimator.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index c7d1e87..1ac58ba 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -41,6 +41,8 @@ PlayerAnimator::~PlayerAnimator ()
 void
 PlayerAnimator::clear ()
 {
+  for (auto info : _scheduled)
+    delete info;
   _scheduled.clear ();
 }
 
@@ -115,9 +117,12 @@ PlayerAnimator::cancel (const string &name)
 }
 
 static bool
-isDone (AnimInfo *info)
+deleteIfDone (AnimInfo *info)
 {
-  return info->isDone ();
+  if (!info->isDone ())
+    return false;
+  delete info;
+  return true;
 }
 
 void
@@ -262,7 +267,7 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
         }
     }
 
-  _scheduled.remove_if (isDone);
+  _scheduled.remove_if (deleteIfDone);
 }
 
 void
@@ -286,12 +291,14 @@ PlayerAnimator::setTransitionProperties (const string &name,
 
   if (name == "transIn")
     {
+      delete _transIn;
       _transIn = new TransitionInfo (
           type, subtype, dur, startProgress, endProgress, direction,
           fadeColor, horzRepeat, vertRepeat, borderWidth, borderColor);
     }
   else if (name == "transOut")
     {
+      delete _transOut;
       _transOut = new TransitionInfo (
           type, subtype, dur, startProgress, endProgress, direction,
           fadeColor, horzRepeat, vertRepeat, borderWidth, borderColor);
-- 
2.43.0


From 0048b01070a81ad81ac1eef7379973fc20b52bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:59 +0000
Subject: [PATCH 60/84] fix: animations started from the attributed value
 instead of the value shown

---
 lib/Player.cpp         | 31 ++++++++++++++-----------------
 lib/PlayerAnimator.cpp | 12 ++++--------
 lib/PlayerAnimator.h   |  2 +-
 3 files changed, 19 insertions(+), 26 deletions(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 4b17169..0c6de08 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -310,7 +310,7 @@ Player::setProperty (const string &name, const string &value)
     goto done;
 
   // The new value replaces that of any animation still running.
-  _animator->cancel (name);
+  _animator->cancel (name == "backgroundColor" ? "background" : name);
 
   if (_value == "")
     {
@@ -349,7 +349,8 @@ Player::resetProperties (set<string> *props)
 }
 
 void
-Player::schedulePropertyAnimation (const string &name, const string &from,
+Player::schedulePropertyAnimation (const string &name,
+                                   unused (const string &from),
                                    const string &to, Time dur)
 {
   list<string> names;
@@ -363,30 +364,26 @@ Player::schedulePropertyAnimation (const string &name, const string &from,
     case PROP_WIDTH:
     case PROP_HEIGHT:
     case PROP_TRANSPARENCY:
+    case PROP_BACKGROUND:
+      // Start from what is shown now.
+      _animator->update (&_prop.rect, &_prop.bgColor, &_prop.alpha, &_crop);
+      _animator->schedule (name == "backgroundColor" ? "background" : name,
+                           "", to, dur);
+      return;
     case PROP_BOUNDS:
+      names = { "left", "top", "width", "height" };
+      break;
     case PROP_LOCATION:
+      names = { "left", "top" };
+      break;
     case PROP_SIZE:
+      names = { "width", "height" };
       break;
-    case PROP_BACKGROUND:
-      _animator->schedule ("background", from, to, dur);
-      return;
     default: // cannot be animated
       this->setProperty (name, to);
       return;
     }
 
-  if (name == "bounds")
-    names = { "left", "top", "width", "height" };
-  else if (name == "location")
-    names = { "left", "top" };
-  else if (name == "size")
-    names = { "width", "height" };
-  else
-    {
-      _animator->schedule (name, from, to, dur);
-      return;
-    }
-
   // Animate each component.
   if (unlikely (!ginga::try_parse_list (to, ',', names.size (),
                                         names.size (), &values)))
diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index 1ac58ba..5e4f23a 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -52,7 +52,7 @@ PlayerAnimator::schedule (const string &name, const string &from,
 {
 
   // The property is taken over from any animation still running.
-  bool running = this->cancel (name);
+  this->cancel (name);
 
   TRACE ("%s from '%s' to '%s' in %" GINGA_TIME_FORMAT, name.c_str (),
          from.c_str (), to.c_str (), GINGA_TIME_ARGS (dur));
@@ -77,27 +77,25 @@ PlayerAnimator::schedule (const string &name, const string &from,
   else if (name == "transparency")
     {
       // What is drawn is the opacity, i.e., the complement of transparency.
-      string pre_a = (running || from == "") ? "" : xstrbuild (
+      string pre_a = (from == "") ? "" : xstrbuild (
           "%d", 255 - (int) ginga::parse_pixel (from));
       string pos_a = xstrbuild ("%d", 255 - (int) ginga::parse_pixel (to));
       this->doSchedule ("alpha", pre_a, pos_a, dur);
     }
   else
     {
-      this->doSchedule (name, running ? "" : from, to, dur);
+      this->doSchedule (name, from, to, dur);
     }
 }
 
 /**
  * @brief Removes the running animations of property.
  * @param name Property name.
- * @return True if there were such animations, or false otherwise.
  */
-bool
+void
 PlayerAnimator::cancel (const string &name)
 {
   string prefix = (name == "transparency") ? "alpha" : name;
-  bool found = false;
 
   for (auto it = _scheduled.begin (); it != _scheduled.end ();)
     {
@@ -106,14 +104,12 @@ PlayerAnimator::cancel (const string &name)
         {
           delete *it;
           it = _scheduled.erase (it);
-          found = true;
         }
       else
         {
           ++it;
         }
     }
-  return found;
 }
 
 static bool
diff --git a/lib/PlayerAnimator.h b/lib/PlayerAnimator.h
index b29ebd1..e107607 100644
--- a/lib/PlayerAnimator.h
+++ b/lib/PlayerAnimator.h
@@ -88,7 +88,7 @@ public:
   ~PlayerAnimator ();
   void clear ();
   void schedule (const string &, const string &, const string &, Time);
-  bool cancel (const string &);
+  void cancel (const string &);
   void update (Rect *, Color *, guint8 *, list<int> *);
   void setTransitionProperties (const string &, const string &);
   void scheduleTransition (const string &, Rect *, Color *, guint8 *,
-- 
2.43.0


From 2732a8971b3dcd704001dae544d672012fcaae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 61/84] fix: wipe transitions depended on the redraw rate and
 used a cleared polygon

---
 lib/PlayerAnimator.cpp | 236 ++++++++++-------------------------------
 lib/PlayerAnimator.h   |   6 --
 2 files changed, 57 insertions(+), 185 deletions(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index 5e4f23a..2744055 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -121,6 +121,43 @@ deleteIfDone (AnimInfo *info)
   return true;
 }
 
+// Stores into POLY the part of RECT still hidden by wipe NAME.
+
+static void
+createPolygon (const string &name, const Rect *rect, double progress,
+               list<int> *poly)
+{
+  int x = rect->x;
+  int y = rect->y;
+  int w = rect->width;
+  int h = rect->height;
+
+  poly->clear ();
+  if (name == "barwipe:topToBottom")
+    {
+      int dy = (int) lround (progress * h);
+      *poly = { x, y + dy, x + w, y + dy, x + w, y + h, x, y + h };
+    }
+  else if (name == "barwipe:leftToRight")
+    {
+      int dx = (int) lround (progress * w);
+      *poly = { x + dx, y, x + w, y, x + w, y + h, x + dx, y + h };
+    }
+  else if (name == "diagonalwipe:topLeft" && progress < .5)
+    {
+      int dx = (int) lround (progress * 2 * w);
+      int dy = (int) lround (progress * 2 * h);
+      *poly = { x,     y + dy, x + dx, y, x + w,
+                y, x + w, y + h,  x,      y + h };
+    }
+  else if (name == "diagonalwipe:topLeft")
+    {
+      int dx = (int) lround ((progress * 2 - 1) * w);
+      int dy = (int) lround ((progress * 2 - 1) * h);
+      *poly = { x + dx, y + h, x + w, y + dy, x + w, y + h };
+    }
+}
+
 void
 PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
                         list<int> *cropPolygon)
@@ -150,6 +187,10 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
   g_assert_nonnull (bgColor);
   g_assert_nonnull (alpha);
 
+  string wipe;          // name of the current wipe, if any
+  double progress = 1.; // progress of the current wipe
+  bool wiping = false;
+
   for (AnimInfo *info : _scheduled)
     {
       string name;
@@ -174,68 +215,13 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
         {
           UPDATE (info, int, rect->height, lround, G_MININT, G_MAXINT);
         }
-      else if (name == "barwipe:topToBottom")
-        {
-          list<int>::iterator it = cropPolygon->begin ();
-          advance (it, 1);
-          UPDATE (info, int, *it, lround, G_MININT, G_MAXINT);
-          advance (it, 2);
-          UPDATE (info, int, *it, lround, G_MININT, G_MAXINT);
-
-          if (info->isDone ())
-            cropPolygon->clear ();
-        }
-      else if (name == "barwipe:leftToRight")
-        {
-          list<int>::iterator it = cropPolygon->begin ();
-          UPDATE (info, int, *it, lround, G_MININT, G_MAXINT);
-          advance (it, 6);
-          UPDATE (info, int, *it, lround, G_MININT, G_MAXINT);
-
-          if (info->isDone ())
-            cropPolygon->clear ();
-        }
-      else if (name == "diagonalwipe:topLeft:x")
-        {
-          list<int>::iterator it = cropPolygon->begin ();
-          if (info->getStateNode () == 1)
-            advance (it, 3);
-          else
-            advance (it, 2);
-
-          UPDATE (info, int, *it, lround, G_MININT, G_MAXINT);
-
-          if ((info->getStateNode () == 0)
-              && (*it >= (rect->x + rect->width)))
-            {
-              info->setStateNode (1);
-              this->updateSchedule (
-                  info, "diagonalwipe:topLeft:x", to_string (rect->y),
-                  to_string (rect->y + rect->height), info->getDuration ());
-            }
-
-          if (info->isDone ())
-            cropPolygon->clear ();
-        }
-      else if (name == "diagonalwipe:topLeft:y")
+      else if (name == "barwipe:topToBottom"
+               || name == "barwipe:leftToRight"
+               || name == "diagonalwipe:topLeft")
         {
-          list<int>::iterator it = cropPolygon->begin ();
-          if (info->getStateNode () == 0)
-            advance (it, 1);
-
-          UPDATE (info, int, *it, lround, G_MININT, G_MAXINT);
-
-          if ((info->getStateNode () == 0)
-              && (*it >= (rect->y + rect->height)))
-            {
-              info->setStateNode (1);
-              this->updateSchedule (
-                  info, "diagonalwipe:topLeft:y", to_string (rect->x),
-                  to_string (rect->x + rect->width), info->getDuration ());
-            }
-
-          if (info->isDone ())
-            cropPolygon->clear ();
+          UPDATE (info, double, progress, , 0., 1.);
+          wipe = info->isDone () ? "" : name;
+          wiping = true;
         }
       else if (name == "background:r")
         {
@@ -263,6 +249,9 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
         }
     }
 
+  if (wiping)
+    createPolygon (wipe, rect, progress, cropPolygon);
+
   _scheduled.remove_if (deleteIfDone);
 }
 
@@ -301,44 +290,10 @@ PlayerAnimator::setTransitionProperties (const string &name,
     }
 }
 
-static bool
-createPolygon (string name, Rect *rect, list<int> *cropPoly)
-{
-  if (name == "barWipe")
-    {
-      cropPoly->insert (cropPoly->end (), rect->x); // dot1 (x,y)
-      cropPoly->insert (cropPoly->end (), rect->y); //
-      cropPoly->insert (cropPoly->end (),
-                        rect->x + rect->width);     // dot1 (x+w,y)
-      cropPoly->insert (cropPoly->end (), rect->y); //
-      cropPoly->insert (cropPoly->end (),
-                        rect->x + rect->width); // dot3 (x+w,y+h)
-      cropPoly->insert (cropPoly->end (), rect->y + rect->height); //
-      cropPoly->insert (cropPoly->end (), rect->x); // dot4 (x,y+h)
-      cropPoly->insert (cropPoly->end (), rect->y + rect->height); //
-    }
-  else if (name == "diagonalWipe")
-    {
-      cropPoly->insert (cropPoly->end (), rect->x); // dot1 (x,y)
-      cropPoly->insert (cropPoly->end (), rect->y); //
-      cropPoly->insert (cropPoly->end (), rect->x); // dot2 (x,y)
-      cropPoly->insert (cropPoly->end (), rect->y); //
-      cropPoly->insert (cropPoly->end (),
-                        rect->x + rect->width);     // dot3 (x+w,y)
-      cropPoly->insert (cropPoly->end (), rect->y); //
-      cropPoly->insert (cropPoly->end (),
-                        rect->x + rect->width); // dot4 (x+w,y+h)
-      cropPoly->insert (cropPoly->end (), rect->y + rect->height); //
-      cropPoly->insert (cropPoly->end (), rect->x); // dot5 (x,y+h)
-      cropPoly->insert (cropPoly->end (), rect->y + rect->height); //
-    }
-
-  return true;
-}
-
 void
 PlayerAnimator::scheduleTransition (const string &notificationType,
-                                    Rect *rect, unused (Color *bgColor),
+                                    unused (Rect *rect),
+                                    unused (Color *bgColor),
                                     guint8 *alpha, list<int> *cropPoly)
 {
   cropPoly->clear ();
@@ -350,31 +305,14 @@ PlayerAnimator::scheduleTransition (const string &notificationType,
 
       if (_transIn->type == "barWipe")
         {
-          createPolygon (_transIn->type, rect, cropPoly);
-
-          if (_transIn->subtype == "topToBottom")
-            {
-              this->schedule ("barwipe:topToBottom", to_string (rect->y),
-                              to_string (rect->y + rect->height),
-                              _transIn->dur);
-            }
-          else
-            {
-              this->schedule ("barwipe:leftToRight", to_string (rect->x),
-                              to_string (rect->x + rect->width),
-                              _transIn->dur);
-            }
+          this->schedule ((_transIn->subtype == "topToBottom")
+                              ? "barwipe:topToBottom"
+                              : "barwipe:leftToRight",
+                          "0", "1", _transIn->dur);
         }
       else if (_transIn->type == "diagonalWipe")
         {
-          createPolygon (_transIn->type, rect, cropPoly);
-
-          this->schedule ("diagonalwipe:topLeft:x", to_string (rect->x),
-                          to_string (rect->x + rect->width),
-                          _transIn->dur / 2);
-          this->schedule ("diagonalwipe:topLeft:y", to_string (rect->y),
-                          to_string (rect->y + rect->height),
-                          _transIn->dur / 2);
+          this->schedule ("diagonalwipe:topLeft", "0", "1", _transIn->dur);
         }
       else
         {
@@ -391,42 +329,6 @@ PlayerAnimator::scheduleTransition (const string &notificationType,
 
 // PlayerAnimator: Private.
 
-void
-PlayerAnimator::updateSchedule (AnimInfo *info, const string &name,
-                                const string &from, const string &to,
-                                Time dur)
-{
-  double current;
-  double target;
-  int width;
-  int height;
-
-  current = 0;
-  width = _formatter->getOptionInt ("width");
-  height = _formatter->getOptionInt ("height");
-
-  if (name == "top" || name == "height")
-    {
-      if (from != "")
-        current = ginga::parse_percent (from, height, 0, G_MAXINT);
-      target = ginga::parse_percent (to, height, 0, G_MAXINT);
-    }
-  else if (name == "left" || name == "width")
-    {
-      if (from != "")
-        current = ginga::parse_percent (from, width, 0, G_MAXINT);
-      target = ginga::parse_percent (to, width, 0, G_MAXINT);
-    }
-  else
-    {
-      if (from != "")
-        current = ginga::parse_percent (from, 100, 0, G_MAXINT);
-      target = ginga::parse_percent (to, 100, 0, G_MAXINT);
-    }
-
-  info->update (name, current, target, dur);
-}
-
 void
 PlayerAnimator::doSchedule (const string &name, const string &from,
                             const string &to, Time dur)
@@ -483,21 +385,9 @@ AnimInfo::AnimInfo (const string &name, double from, double to, Time dur,
   _duration = dur;
   _done = false;
   _init = false;
-  _stateNode = 0;
   _speed = 1.0;
 }
 
-void
-AnimInfo::update (const string &name, double from, double to, Time dur)
-{
-  _name = name;
-  _current = from;
-  _target = to;
-  _duration = dur;
-  _done = false;
-  _init = false;
-}
-
 AnimInfo::~AnimInfo ()
 {
 }
@@ -538,18 +428,6 @@ AnimInfo::isInit ()
   return _init;
 }
 
-int
-AnimInfo::getStateNode ()
-{
-  return _stateNode;
-}
-
-void
-AnimInfo::setStateNode (int state)
-{
-  _stateNode = state;
-}
-
 void
 AnimInfo::init (double current)
 {
diff --git a/lib/PlayerAnimator.h b/lib/PlayerAnimator.h
index e107607..2b6fdd1 100644
--- a/lib/PlayerAnimator.h
+++ b/lib/PlayerAnimator.h
@@ -36,9 +36,6 @@ public:
   double getTarget ();
   Time getDuration ();
   double getSpeed ();
-  int getStateNode ();
-  void setStateNode (int);
-  void update (const string &, double, double, Time);
   bool isDone ();
   bool isInit ();
 
@@ -54,7 +51,6 @@ private:
   double _speed;     // animation speed
   bool _done;        // true if animation is done
   bool _init;        // true if animation is initialized
-  int _stateNode;    // for complex animations
 };
 
 /**
@@ -102,8 +98,6 @@ private:
   Time *_time;
 
   void doSchedule (const string &, const string &, const string &, Time);
-  void updateSchedule (AnimInfo *, const string &, const string &,
-                       const string &, Time);
 };
 
 }
-- 
2.43.0


From 9a09029859d4a6899d8ff24ba830caa3b2d08ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 62/84] fix: wipe transitions erased what is below and around
 the media

---
 lib/Player.cpp | 56 ++++++++++++++++++++++----------------------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 0c6de08..9af5aea 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -418,6 +418,28 @@ Player::redraw (cairo_t *cr)
       this->reload ();
     }
 
+  if (!_opengl)
+    {
+      cairo_save (cr);
+      if (!_crop.empty ()) // hide the inside of the polygon
+        {
+          cairo_set_fill_rule (cr, CAIRO_FILL_RULE_EVEN_ODD);
+          cairo_rectangle (cr, _prop.rect.x, _prop.rect.y, _prop.rect.width,
+                           _prop.rect.height);
+          for (auto it = _crop.begin (); it != _crop.end (); ++it)
+            {
+              int x = *it++;
+              int y = *it;
+              if (it == next (_crop.begin ()))
+                cairo_move_to (cr, x, y);
+              else
+                cairo_line_to (cr, x, y);
+            }
+          cairo_close_path (cr);
+          cairo_clip (cr);
+        }
+    }
+
   if (_prop.bgColor.alpha > 0)
     {
       if (_opengl)
@@ -486,38 +508,8 @@ Player::redraw (cairo_t *cr)
         }
     }
 
-  if (_opengl)
-    {
-      // TODO.
-    }
-  else
-    {
-      cairo_save (cr);
-      cairo_set_operator (cr, CAIRO_OPERATOR_CLEAR);
-      cairo_set_source_rgba (cr, 1., 1., 1., 1.);
-
-      for (auto it = _crop.begin (); it != _crop.end (); ++it)
-        {
-          bool fdot = false;
-          if (it == _crop.begin ())
-            fdot = true;
-
-          int x = *it;
-          advance (it, 1);
-          int y = *it;
-
-          if (fdot)
-            cairo_move_to (cr, x, y);
-          else
-            cairo_line_to (cr, x, y);
-        }
-
-      cairo_close_path (cr);
-      cairo_stroke_preserve (cr);
-      cairo_fill (cr);
-      cairo_set_operator (cr, CAIRO_OPERATOR_OVER);
-      cairo_restore (cr);
-    }
+  if (!_opengl)
+    cairo_restore (cr);
 
   if (_prop.debug || _formatter->getOptionBool ("debug"))
     {
-- 
2.43.0


From 62e7f95412ea50a185d2b1dc6933921f79930da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 63/84] fix: malformed web service requests, or requests out of
 a presentation, aborted the player

---
 lib/WebServices.cpp | 206 ++++++++++++++++++++++++++++----------------
 1 file changed, 130 insertions(+), 76 deletions(-)

diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index 4a86740..8a1eefe 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -8,6 +8,7 @@
 #include <json/json.h>
 #include <algorithm>
 #include <iostream>
+#include <memory>
 
 #define WS_ADD_ROUTE(ws, r, f)                                             \
   G_STMT_START                                                             \
@@ -60,6 +61,64 @@ WebServices::stop ()
   return true;
 }
 
+/**
+ * @brief Parses the JSON object in the body of a request.
+ * @return \c true if successful, or \c false otherwise.
+ */
+static bool
+parse_body (SoupMessage *msg, Json::Value *root)
+{
+  Json::CharReaderBuilder builder;
+  std::unique_ptr<Json::CharReader> reader (builder.newCharReader ());
+  const char *data = msg->request_body->data;
+  string errors;
+
+  if (data == nullptr)
+    return false;
+
+  try
+    {
+      if (!reader->parse (data, data + msg->request_body->length, root,
+                          &errors))
+        return false;
+    }
+  catch (const std::exception &e)
+    {
+      return false; // e.g., too deeply nested
+    }
+  return root->isObject ();
+}
+
+/**
+ * @brief Gets the string in field \p name of \p root (empty if absent).
+ * @return \c true if successful, or \c false otherwise.
+ */
+static bool
+get_string (const Json::Value &root, const char *name, string *result)
+{
+  if (!root[name].isConvertibleTo (Json::stringValue))
+    return false;
+  *result = root[name].asString ();
+  return true;
+}
+
+/**
+ * @brief Gets the strings in field \p name of \p root (empty if absent).
+ * @return \c true if successful, or \c false otherwise.
+ */
+static bool
+get_strings (const Json::Value &root, const char *name,
+             list<string> *result)
+{
+  for (const auto &item : root[name])
+    {
+      if (!item.isConvertibleTo (Json::stringValue))
+        return false;
+      result->push_back (item.asString ());
+    }
+  return true;
+}
+
 static void
 cb_null (SoupServer *server, SoupMessage *msg, const char *path,
          GHashTable *query, SoupClientContext *client, gpointer user_data)
@@ -100,116 +159,111 @@ cb_remoteplayer (SoupServer *server, SoupMessage *msg, const char *path,
                  gpointer user_data)
 {
   Json::Value root;
-  Json::CharReaderBuilder builder;
-  Json::CharReader *reader = builder.newCharReader ();
-  string errors;
   WebServices *ws = (WebServices *) user_data;
   bool status = false;
+  PlayerRemoteData pdata;
 
   TRACE_SOUP_REQ_MSG (msg);
 
-  if (!reader->parse (msg->request_body->data,
-                      msg->request_body->data + msg->request_body->length,
-                      &root, &errors))
-    WARNING ("Error parsing request body");
-
-  PlayerRemoteData pdata;
-  pdata.location = root["location"].asString ();
-  pdata.deviceType = root["deviceType"].asString ();
-  for (const auto &item : root["supportedFormats"])
-    pdata.supportedFormats.push_back (item.asString ());
-  for (const auto &item : root["recognizableEvents"])
-    pdata.recognizedableEvents.push_back (item.asString ());
-  if (pdata.isValid ())
-    status = ws->machMediaThenSetPlayerRemote (pdata);
+  if (parse_body (msg, &root)
+      && get_string (root, "location", &pdata.location)
+      && get_string (root, "deviceType", &pdata.deviceType)
+      && get_strings (root, "supportedFormats", &pdata.supportedFormats)
+      && get_strings (root, "recognizableEvents",
+                      &pdata.recognizedableEvents))
+    {
+      if (pdata.isValid ())
+        status = ws->machMediaThenSetPlayerRemote (pdata);
+    }
+  else
+    {
+      WARNING ("Error parsing request body");
+    }
   soup_message_set_status (msg,
                            status ? SOUP_STATUS_OK : SOUP_STATUS_NOT_FOUND);
 }
 
-static void
-cb_apps (SoupServer *server, SoupMessage *msg, const char *path,
-         GHashTable *query, SoupClientContext *client, gpointer user_data)
+/**
+ * @brief Performs the action described by the request \p msg.
+ * @return \c true if successful, or \c false otherwise.
+ */
+static bool
+eval_request (WebServices *ws, SoupMessage *msg, const char *path)
 {
   Json::Value root;
-  Json::CharReaderBuilder builder;
-  Json::CharReader *reader = builder.newCharReader ();
-  string errors;
-  WebServices *ws = (WebServices *) user_data;
-  bool status = false;
   string action, interface, value;
   Object *node;
-  Event *evt = nullptr;
+  Event *evt;
   Document *doc;
-  const char *target = path + strlen (WS_ROUTE_APPS);
-  gchar **params = g_strsplit (target, "/", 3);
 
+  // There may be no document if the formatter is stopped.
   doc = ws->getFormatter ()->getDocument ();
-  g_assert_nonnull (doc);
-  const char *appId = params[0]; // ignored
-  const char *docId = params[1]; // ignored
-  const char *nodeId = params[2];
-  if (!strlen (appId) || !strlen (docId) || !strlen (nodeId))
-    goto fail;
-
-  TRACE ("request %s: app=%s, docId=%s nodeId=%s", WS_ROUTE_APPS, appId,
-         docId, nodeId);
+  if (doc == nullptr)
+    return false;
+
+  // The path is "<appId>/<docId>/<nodeId>"; appId and docId are ignored.
+  if (!g_str_has_prefix (path, WS_ROUTE_APPS))
+    return false;
+  string target = path + strlen (WS_ROUTE_APPS);
+  size_t docPos = target.find ('/');
+  if (docPos == string::npos)
+    return false;
+  size_t nodePos = target.find ('/', docPos + 1);
+  if (nodePos == string::npos)
+    return false;
+  string appId = target.substr (0, docPos);
+  string docId = target.substr (docPos + 1, nodePos - docPos - 1);
+  string nodeId = target.substr (nodePos + 1);
+  if (appId.empty () || docId.empty () || nodeId.empty ())
+    return false;
+
+  TRACE ("request %s: app=%s, docId=%s nodeId=%s", WS_ROUTE_APPS,
+         appId.c_str (), docId.c_str (), nodeId.c_str ());
   TRACE_SOUP_REQ_MSG (msg);
 
-  if (!reader->parse (msg->request_body->data,
-                      msg->request_body->data + msg->request_body->length,
-                      &root, &errors))
+  if (!parse_body (msg, &root) || !get_string (root, "action", &action)
+      || !get_string (root, "interface", &interface)
+      || !get_string (root, "value", &value))
     {
       WARNING ("Error parsing request body");
-      goto fail;
+      return false;
     }
-  action = root["action"].asString ();
-  interface = root["interface"].asString ();
-  value = root["value"].asString ();
 
   node = doc->getObjectById (nodeId);
-  g_strfreev (params);
-
-  if (!node)
-    goto fail;
+  if (node == nullptr)
+    return false;
 
   if (action == "select")
     {
       evt = node->getSelectionEvent (value);
+      if (evt == nullptr)
+        return false;
       doc->evalAction (evt, Event::START);
       doc->evalAction (evt, Event::STOP);
+      return true;
     }
-  else if (action == "lookAt")
-    {
-      if (!interface.empty ())
-        evt = node->getLookAtEvent (interface);
-      else
-        evt = node->getLookAtEvent ("@lambda");
-
-      if (evt != nullptr)
-        doc->evalAction (evt, Event::START);
-      else
-        goto fail;
-    }
-  else if (action == "lookAway")
+
+  if (action == "lookAt" || action == "lookAway")
     {
-      if (!interface.empty ())
-        evt = node->getLookAtEvent (interface);
-      else
-        evt = node->getLookAtEvent ("@lambda");
-
-      if (evt != nullptr)
-        doc->evalAction (evt, Event::STOP);
-      else
-        goto fail;
+      evt = node->getLookAtEvent (interface.empty () ? "@lambda"
+                                                     : interface);
+      if (evt == nullptr)
+        return false;
+      doc->evalAction (evt,
+                       action == "lookAt" ? Event::START : Event::STOP);
+      return true;
     }
-  else
-    goto fail;
 
-  soup_message_set_status (msg, SOUP_STATUS_OK);
-  return;
+  return false;
+}
 
-fail:
-  soup_message_set_status (msg, SOUP_STATUS_NOT_FOUND);
+static void
+cb_apps (SoupServer *server, SoupMessage *msg, const char *path,
+         GHashTable *query, SoupClientContext *client, gpointer user_data)
+{
+  bool status = eval_request ((WebServices *) user_data, msg, path);
+  soup_message_set_status (msg,
+                           status ? SOUP_STATUS_OK : SOUP_STATUS_NOT_FOUND);
 }
 
 bool
-- 
2.43.0


From 0d5ac9c88c842017edabfe7487c3cc8070ba200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:00 +0000
Subject: [PATCH 64/84] fix: web services that were started again, or never,
 aborted or crashed the player

---
 lib/WebServices.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index 8a1eefe..c8daa9d 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -45,9 +45,6 @@ WebServices::WebServices (Formatter *fmt)
 WebServices::~WebServices ()
 {
   this->stop ();
-  g_object_unref (_resource_group);
-  g_object_unref (_client);
-  g_object_unref (_server);
 }
 
 bool
@@ -55,9 +52,14 @@ WebServices::stop ()
 {
   _state = WS_STATE_STOPPED;
   // stop ssdp
-  gssdp_resource_group_set_available (_resource_group, false);
+  if (_resource_group != nullptr)
+    gssdp_resource_group_set_available (_resource_group, false);
+  g_clear_object (&_resource_group);
+  g_clear_object (&_client);
   // stop http
-  soup_server_disconnect (_server);
+  if (_server != nullptr)
+    soup_server_disconnect (_server);
+  g_clear_object (&_server);
   return true;
 }
 
@@ -273,6 +275,10 @@ WebServices::start ()
   int ret = 0;
   char *location;
 
+  // This must be the first check.
+  if (_state == WS_STATE_STARTED)
+    return true; // nothing to do
+
   // create ssdpclient
   _client = gssdp_client_new (nullptr, &error);
   if (error)
@@ -301,11 +307,17 @@ WebServices::start ()
     {
       TRACE ("WebServices fail serve at default port %d: %s\n",
              WS_PORT_DEFAULT, error->message);
-      g_error_free (error);
+      g_clear_error (&error);
       // if fail use WS_PORT_DEFAULT + 1
       ret = soup_server_listen_all (_server, WS_PORT_DEFAULT + 1,
                                     SoupServerListenOptions (0), &error);
-      g_assert (ret);
+      if (!ret)
+        {
+          WARNING ("WebServices fail serve: %s", error->message);
+          g_error_free (error);
+          this->stop ();
+          return false;
+        }
       this->host_port = WS_PORT_DEFAULT + 1;
     }
 
-- 
2.43.0


From a9947cfeda4bb4e8dac40580648922f83fb31be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:00 +0000
Subject: [PATCH 65/84] fix: the web services of a destroyed player kept
 running and leaked

---
 lib/Formatter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index eb42308..e39cb07 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -474,6 +474,7 @@ Formatter::Formatter (const GingaOptions *opts) : Ginga (opts)
 Formatter::~Formatter ()
 {
   this->stop ();
+  delete _webservices;
 }
 
 /**
-- 
2.43.0


From 8836fba36d259aef6ab56a16cacf8ba5f39ea2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:00 +0000
Subject: [PATCH 66/84] fix: option webservices could not be read or set by
 name

---
 lib/Formatter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index e39cb07..a38ccb1 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -64,6 +64,7 @@ static map<string, GingaOptionData> opts_table = {
   OPTS_ENTRY (experimental, G_TYPE_BOOLEAN, Experimental),
   OPTS_ENTRY (height, G_TYPE_INT, Size),
   OPTS_ENTRY (opengl, G_TYPE_BOOLEAN, OpenGL),
+  OPTS_ENTRY (webservices, G_TYPE_BOOLEAN, WebServices),
   OPTS_ENTRY (width, G_TYPE_INT, Size),
 };
 
-- 
2.43.0


From fee2f92514bb1b088497ab8c36a9e7b6eda60b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:00 +0000
Subject: [PATCH 67/84] fix: media bound to a device were never assigned to
 remote players

---
 lib/Document.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 77edbf1..ddb8c55 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -153,10 +153,6 @@ Document::addObject (Object *obj)
       Media *media = cast (Media *, obj);
       g_assert_nonnull (media);
       _medias.insert (media);
-      if (PlayerRemote::usesPlayerRemote (media))
-        {
-          _mediasRemote.insert (media);
-        }
     }
   else if (instanceof (Context *, obj))
     {
@@ -208,6 +204,11 @@ Document::getMedias ()
 const set<Media *> *
 Document::getMediasRemote ()
 {
+  // Media get the properties that make them remote after they are added.
+  _mediasRemote.clear ();
+  for (auto media : _medias)
+    if (PlayerRemote::usesPlayerRemote (media))
+      _mediasRemote.insert (media);
   return &_mediasRemote;
 }
 
-- 
2.43.0


From ff3a07d2df6281b0450964ba3c086cbaf8241225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:10 +0000
Subject: [PATCH 68/84] fix: media were announced to remote players that they
 do not match

---
 lib/WebServices.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index c8daa9d..091cd90 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -357,21 +357,22 @@ WebServices::machMediaThenSetPlayerRemote (PlayerRemoteData &data)
 
   for (auto m : *mrts)
     {
-      // match media deviceType then set remotePlayerBaseURL
-      if (m->getProperty ("device") == data.deviceType)
-        m->setProperty ("remotePlayerBaseURL", data.location);
+      // match media deviceType
+      bool match = m->getProperty ("device") == data.deviceType;
 
-      // match supportedFormats then set remotePlayerBaseURL
+      // match supportedFormats
       for (auto mime : data.supportedFormats)
         if (m->getProperty ("type") == mime)
-          m->setProperty ("remotePlayerBaseURL", data.location);
+          match = true;
 
-      if (m->getProperty ("remotePlayerBaseURL") != "")
+      if (match)
         {
           SoupSession *session;
           SoupMessage *msg;
           char *body;
 
+          m->setProperty ("remotePlayerBaseURL", data.location);
+
           session = soup_session_new ();
           msg = soup_message_new ("POST", data.location.c_str ());
           body
-- 
2.43.0


From 11e5aab5aec6b908554ae7a32668060a3a627632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 69/84] fix: remote players whose location is no HTTP address
 were accepted

---
 lib/WebServices.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index 091cd90..a9567db 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -25,7 +25,11 @@
 bool
 PlayerRemoteData::isValid ()
 {
-  return (!location.empty () && !deviceType.empty ()
+  SoupURI *uri = soup_uri_new (location.c_str ());
+  bool valid = SOUP_URI_VALID_FOR_HTTP (uri) && uri->host[0] != '\0';
+  if (uri != nullptr)
+    soup_uri_free (uri);
+  return (valid && !deviceType.empty ()
           && !supportedFormats.empty () && !recognizedableEvents.empty ());
 }
 
-- 
2.43.0


From 6d7720333fe53fadfe0a10a0ba1aca08fac545b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 70/84] fix: media without a remote player sent requests to
 nowhere, and failed requests went unnoticed

---
 lib/PlayerRemote.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/lib/PlayerRemote.cpp b/lib/PlayerRemote.cpp
index e439962..f8a83ff 100644
--- a/lib/PlayerRemote.cpp
+++ b/lib/PlayerRemote.cpp
@@ -57,25 +57,29 @@ PlayerRemote::usesPlayerRemote (Media *media)
 
 PlayerRemote::~PlayerRemote ()
 {
-  g_object_unref (_session);
+  g_clear_object (&_session);
 }
 
 static void
 cb_action (SoupSession *session, SoupMessage *msg, gpointer user_data)
 {
-  string url;
-  auto player = (PlayerRemote *) user_data;
-  if (!msg->status_code == SOUP_STATUS_OK)
-    WARNING ("Failed to perform request to %s",
-             player->getProperty ("remotePlayerBaseURL").c_str ());
+  // The player may be gone already.
+  if (msg->status_code != SOUP_STATUS_OK)
+    {
+      char *url = soup_uri_to_string (soup_message_get_uri (msg), FALSE);
+      WARNING ("Failed to perform request to %s", url);
+      g_free (url);
+    }
 }
 
 void
 PlayerRemote::sendAction (const string &body, const string &label = "")
 {
-  guint status;
   SoupMessage *msg;
 
+  if (getProperty ("remotePlayerBaseURL") == "")
+    return; // no remote player yet
+
   if (!_session)
     _session = soup_session_new ();
 
@@ -85,9 +89,14 @@ PlayerRemote::sendAction (const string &body, const string &label = "")
                                         : label.c_str ());
 
   msg = soup_message_new (SOUP_METHOD_POST, url.c_str ());
+  if (msg == nullptr)
+    {
+      WARNING ("Bad remote player URL: %s", url.c_str ());
+      return;
+    }
   soup_message_set_request (msg, "application/json", SOUP_MEMORY_COPY,
                             body.c_str (), strlen (body.c_str ()));
-  soup_session_queue_message (_session, msg, cb_action, this);
+  soup_session_queue_message (_session, msg, cb_action, nullptr);
 }
 
 void
-- 
2.43.0


From f7d6d8cc057100cfb1ee80b270d1e36e4b27a4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:17 +0000
Subject: [PATCH 71/84] fix: remote players were sent the zOrder as zIndex, and
 no transparency

---
 lib/PlayerRemote.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/PlayerRemote.cpp b/lib/PlayerRemote.cpp
index f8a83ff..1cb1f9a 100644
--- a/lib/PlayerRemote.cpp
+++ b/lib/PlayerRemote.cpp
@@ -102,12 +102,13 @@ PlayerRemote::sendAction (const string &body, const string &label = "")
 void
 PlayerRemote::start ()
 {
-  string zOrder = getProperty ("zOrder");
+  string transparency = getProperty ("transparency");
   string body_props = xstrbuild (
       REMOTE_PLAYER_JSON_ACT_WITH_PROPS, "start", 0,
       getProperty ("top").c_str (), getProperty ("left").c_str (),
       getProperty ("width").c_str (), getProperty ("height").c_str (),
-      getProperty ("zOrder").c_str (), "0%");
+      getProperty ("zIndex").c_str (),
+      transparency != "" ? transparency.c_str () : "0%");
   sendAction (body_props);
   Player::start ();
 }
-- 
2.43.0


From 44e958447064cce1c28d774301c22d0f56532838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:18 +0000
Subject: [PATCH 72/84] fix: the components of a switch were never freed

---
 lib/Switch.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index 019acb4..2835b9f 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -32,6 +32,10 @@ Switch::Switch (const string &id) : Composition (id)
 
 Switch::~Switch ()
 {
+  // Delete children.
+  for (auto child : _children)
+    delete child;
+
   for (auto item : _rules)
     delete item.second;
 }
-- 
2.43.0


From 06c5bcbed965715e2551dbe67cf1f9fb792768b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:38 +0000
Subject: [PATCH 73/84] fix: every image loaded leaked its file object

---
 lib/PlayerImage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/PlayerImage.cpp b/lib/PlayerImage.cpp
index 5f5b88e..e261a12 100644
--- a/lib/PlayerImage.cpp
+++ b/lib/PlayerImage.cpp
@@ -39,6 +39,7 @@ cairox_surface_create_from_uri (const char *path, cairo_surface_t **dup)
   g_assert_nonnull (file);
 
   GFileInputStream *input = g_file_read (file, NULL, &error);
+  g_object_unref (file);
   g_assert_nonnull (input);
   if (input)
     {
-- 
2.43.0


From 4a83f20d1cf832ea063148a92e86a17d3b86dcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:38 +0000
Subject: [PATCH 74/84] fix: players of video and generated audio leaked and
 left callbacks behind

---
 lib/PlayerSigGen.cpp | 22 +++++++++++++---------
 lib/PlayerVideo.cpp  |  6 ++++++
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/lib/PlayerSigGen.cpp b/lib/PlayerSigGen.cpp
index bb1c3c3..a72100e 100644
--- a/lib/PlayerSigGen.cpp
+++ b/lib/PlayerSigGen.cpp
@@ -178,24 +178,29 @@ PlayerSigGen::PlayerSigGen (Formatter *formatter, Media *media)
 
 PlayerSigGen::~PlayerSigGen ()
 {
+  GstBus *bus;
+
+  gstx_element_set_state_sync (_pipeline, GST_STATE_NULL);
+  bus = gst_pipeline_get_bus (GST_PIPELINE (_pipeline));
+  g_assert_nonnull (bus);
+  gst_bus_remove_watch (bus);
+  gst_object_unref (bus);
+
+  gst_element_release_request_pad (_audio.tee, _audio.teeAudioPad);
+  gst_object_unref (_audio.teeAudioPad);
+  gst_element_release_request_pad (_audio.tee, _audio.teeVideoPad);
+  gst_object_unref (_audio.teeVideoPad);
+  gst_object_unref (_pipeline);
 }
 
 void
 PlayerSigGen::start ()
 {
-  GstCaps *caps;
-  GstStructure *st;
   GstStateChangeReturn ret;
 
   g_assert (_state != OCCURRING);
   TRACE ("starting");
 
-  st = gst_structure_new_empty ("audio/x-raw");
-  gst_structure_set (st, "format", G_TYPE_STRING, "BGRA", nullptr);
-
-  caps = gst_caps_new_full (st, nullptr);
-  g_assert_nonnull (caps);
-
   Player::setEOS (false);
   g_atomic_int_set (&_sample_flag, 0);
 
@@ -218,7 +223,6 @@ PlayerSigGen::stop ()
   TRACE ("stopping");
 
   gstx_element_set_state_sync (_pipeline, GST_STATE_NULL);
-  gst_object_unref (_pipeline);
   Player::stop ();
 }
 
diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index a5843ca..3286369 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -157,8 +157,14 @@ PlayerVideo::PlayerVideo (Formatter *formatter, Media *media)
 
 PlayerVideo::~PlayerVideo ()
 {
+  GstBus *bus;
+
   _TRACE ("");
   gstx_element_set_state_sync (_playbin, GST_STATE_NULL);
+  bus = gst_pipeline_get_bus (GST_PIPELINE (_playbin));
+  g_assert_nonnull (bus);
+  gst_bus_remove_watch (bus);
+  gst_object_unref (bus);
   gst_object_unref (_playbin);
 }
 
-- 
2.43.0


From ac4805059259a237c0956aceb9f9c6f545eed383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:23 +0000
Subject: [PATCH 75/84] fix: predicates of a link leaked when its document was
 rejected

---
 lib/Parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index ecfd9f8..23b0850 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2817,6 +2817,7 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
           // Resolve event roles.
           list<Action> conditions;
           list<Action> actions;
+          list<unique_ptr<Predicate> > preds; // owned until link is added
           for (auto it : bound)
             {
               ParserConnRole *role;
@@ -2948,6 +2949,7 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
                     default:
                       g_assert_not_reached ();
                     }
+                  preds.emplace_back (act.predicate);
                 }
 
               if (role->condition)
@@ -2956,6 +2958,8 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
                 actions.push_back (act);
             }
           ctx->addLink (conditions, actions);
+          for (auto &pred : preds)
+            pred.release ();
         }
     }
 
-- 
2.43.0


From 7ba496fbabef5fb4d28f5eaeda1809dca9d66209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:58 +0000
Subject: [PATCH 76/84] fix: empty documents aborted the parser

---
 lib/Parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 23b0850..617155e 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -49,7 +49,8 @@ xmlGetLastErrorAsString ()
   string errmsg;
 
   err = xmlGetLastError ();
-  g_assert_nonnull (err);
+  if (unlikely (err == nullptr)) // e.g., if buffer is empty
+    return "XML error: cannot read document";
 
   errmsg = (err->file != nullptr) ? toCPPString (err->file) + ": " : "";
   errmsg += "XML error";
@@ -3623,6 +3624,7 @@ ParserState::pushImportBase (ParserState *st, ParserElt *elt)
     }
 
   // Read the imported document.
+  xmlResetLastError ();
   xml = xmlReadFile (imported_uri.c_str (), nullptr, PARSER_LIBXML_FLAGS);
   if (unlikely (xml == nullptr))
     {
@@ -4390,6 +4392,7 @@ Parser::parseBuffer (const void *buf, size_t size, int width, int height,
   xmlDoc *xml;
   Document *doc;
 
+  xmlResetLastError ();
   xml = xmlReadMemory ((const char *) buf, (int) size, nullptr, nullptr,
                        PARSER_LIBXML_FLAGS);
   if (unlikely (xml == nullptr))
@@ -4425,6 +4428,7 @@ Parser::parseFile (const string &path, int width, int height,
 
   uri = xurifromsrc (uri, "");
 
+  xmlResetLastError ();
   xml = xmlReadFile (uri.c_str (), nullptr, PARSER_LIBXML_FLAGS);
   if (unlikely (xml == nullptr))
     {
-- 
2.43.0


From 180c9e2b9136c52348266441abbf231144e600b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:21 +0000
Subject: [PATCH 77/84] fix: predicates of NCL-ltab links and rules leaked

---
 lib/ParserLua.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index 517c6d4..921c0a2 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -371,7 +371,8 @@ l_parse_switch (lua_State *L)
       lua_pushvalue (L, -3);
       lua_call (L, 2, 0);
 
-      Predicate *pred = predicate->getChildren ()->front ();
+      Predicate *pred = predicate->getChildren ()->front ()->clone ();
+      delete predicate;
       swtch->addRule (obj, pred);
 
       lua_pop (L, 3);
@@ -582,7 +583,8 @@ l_parse_link (lua_State *L)
       lua_pushvalue (L, -3);
       lua_call (L, 2, 0);
 
-      Predicate *pred = predicate->getChildren ()->front ();
+      Predicate *pred = predicate->getChildren ()->front ()->clone ();
+      delete predicate;
       act.predicate = pred;
     }
 
-- 
2.43.0


From 6c5eea7e7512b1af4d24cbb2462726a08f01e6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:47 +0000
Subject: [PATCH 78/84] fix: a remote media whose type is given by its
 content's extension was matched only once started

---
 lib/WebServices.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index a9567db..b33d108 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -365,8 +365,11 @@ WebServices::machMediaThenSetPlayerRemote (PlayerRemoteData &data)
       bool match = m->getProperty ("device") == data.deviceType;
 
       // match supportedFormats
+      string type = m->getProperty ("type");
+      if (type == "")
+        Player::getMimeForURI (m->getProperty ("uri"), &type);
       for (auto mime : data.supportedFormats)
-        if (m->getProperty ("type") == mime)
+        if (type == mime)
           match = true;
 
       if (match)
-- 
2.43.0


From bfd21c3ba463fc75308011c6e938186d168efea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:57 +0000
Subject: [PATCH 79/84] fix: sound properties of audio and video media crashed
 the player

---
 lib/PlayerVideo.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 3286369..9f172c7 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -95,6 +95,11 @@ PlayerVideo::PlayerVideo (Formatter *formatter, Media *media)
 
   _TRACE ("");
 
+  _audio = {}; // no audio filters
+  _prop = {};
+  _prop.volume = 1.;
+  _prop.speed = 1.;
+
   // Initialize GStreamer.
   if (!gst_is_initialized ())
     {
@@ -500,13 +505,15 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
     case PROP_BALANCE:
       {
         _prop.balance = xstrtodorpercent (value, nullptr);
-        g_object_set (_audio.pan, "panorama", _prop.balance, nullptr);
+        if (_audio.pan != nullptr)
+          g_object_set (_audio.pan, "panorama", _prop.balance, nullptr);
         break;
       }
     case PROP_BASS:
       {
         _prop.bass = xstrtodorpercent (value, nullptr);
-        g_object_set (_audio.equalizer, "band0", _prop.bass, nullptr);
+        if (_audio.equalizer != nullptr)
+          g_object_set (_audio.equalizer, "band0", _prop.bass, nullptr);
         break;
       }
     case PROP_FREEZE:
@@ -517,7 +524,7 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
     case PROP_MUTE:
       {
         _prop.mute = ginga::parse_bool (value);
-        g_object_set (_audio.volume, "mute", _prop.mute, nullptr);
+        g_object_set (_playbin, "mute", _prop.mute, nullptr);
         break;
       }
     case PROP_SPEED:
@@ -583,8 +590,9 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
     case PROP_TREBLE:
       {
         _prop.treble = xstrtodorpercent (value, nullptr);
-        g_object_set (_audio.equalizer, "band1", _prop.treble, "band2",
-                      _prop.treble, nullptr);
+        if (_audio.equalizer != nullptr)
+          g_object_set (_audio.equalizer, "band1", _prop.treble, "band2",
+                        _prop.treble, nullptr);
         break;
       }
     case PROP_URI:
@@ -597,7 +605,7 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
     case PROP_VOLUME:
       {
         _prop.volume = xstrtodorpercent (value, nullptr);
-        g_object_set (_audio.volume, "volume", _prop.volume, nullptr);
+        g_object_set (_playbin, "volume", _prop.volume, nullptr);
         break;
       }
     default:
-- 
2.43.0


From f0f3c83028c0680c00c003bbca213085f65c3d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:57 +0000
Subject: [PATCH 80/84] fix: changing a video's speed, and its warnings,
 released objects twice

---
 lib/PlayerVideo.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 9f172c7..05f1c76 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -262,7 +262,6 @@ PlayerVideo::speed (double value)
     }
   if (unlikely (!gst_element_send_event (_video.sink, seek_event)))
     TRACE ("speed failed");
-  gst_event_unref (seek_event);
 }
 
 void
@@ -328,7 +327,7 @@ PlayerVideo::getPipelineTime ()
 gint64
 PlayerVideo::getStreamMediaTime ()
 {
-  gint64 cur;
+  gint64 cur = 0;
   if (unlikely (
           !gst_element_query_position (_playbin, GST_FORMAT_TIME, &cur)))
     TRACE ("Get %s time failed", _id.c_str ());
@@ -338,7 +337,7 @@ PlayerVideo::getStreamMediaTime ()
 gint64
 PlayerVideo::getStreamMediaDuration ()
 {
-  gint64 dur;
+  gint64 dur = G_MAXINT64; // unknown
   if (unlikely (
           !gst_element_query_duration (_playbin, GST_FORMAT_TIME, &dur)))
     TRACE ("Get %s duration failed", _id.c_str ());
@@ -473,7 +472,6 @@ PlayerVideo::cb_Bus (GstBus *bus, GstMessage *msg, PlayerVideo *player)
             _WARNING ("%s", error->message);
           }
         g_error_free (error);
-        gst_object_unref (obj);
         break;
       }
     default:
-- 
2.43.0


From d77d44a0a71097a21fc769a8a9f18502b1c9c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:57 +0000
Subject: [PATCH 81/84] fix: audio and video media went on after the end of
 their content

---
 lib/PlayerVideo.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 05f1c76..7d14ff0 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -409,7 +409,8 @@ PlayerVideo::cb_Bus (GstBus *bus, GstMessage *msg, PlayerVideo *player)
     case GST_MESSAGE_EOS:
       {
         _TRACE_MESSAGE (msg, "");
-        // player->stop (); // set eos or use player state to signal eos
+        if (!player->getFreeze ())
+          player->setEOS (true);
         break;
       }
     case GST_MESSAGE_NEW_CLOCK:
-- 
2.43.0


From 834de9dbc84da26fc5175a71df9ac3b66786c173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:57 +0000
Subject: [PATCH 82/84] fix: speed and time given to a video before it was
 ready were lost

---
 lib/PlayerVideo.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 7d14ff0..feb8d34 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -359,6 +359,7 @@ PlayerVideo::cb_Bus (GstBus *bus, GstMessage *msg, PlayerVideo *player)
         gst_message_parse_async_done (msg, &running_time);
         _TRACE_MESSAGE (msg, "%" GST_TIME_FORMAT,
                         GST_TIME_ARGS (running_time));
+        player->doStackedActions ();
         break;
       }
     case GST_MESSAGE_BUFFERING:
@@ -630,14 +631,10 @@ PlayerVideo::stackAction (Property code, unused (const string &name),
 void
 PlayerVideo::doStackedActions ()
 {
-  while (!_stack_actions.empty ())
-    {
-      PlayerVideoAction act;
-      act = _stack_actions.front ();
-      _stack_actions.pop_front ();
-
-      this->doSetProperty (act.code, act.name, act.value);
-    }
+  list<PlayerVideoAction> actions;
+  actions.swap (_stack_actions); // an action may be stacked again
+  for (auto &act : actions)
+    this->doSetProperty (act.code, act.name, act.value);
 }
 
 bool
-- 
2.43.0


From cd8634e332a1756eee506d02e13cf64fe45cde7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:57 +0000
Subject: [PATCH 83/84] fix: a signal generator that failed to start never
 ended

---
 lib/PlayerSigGen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PlayerSigGen.cpp b/lib/PlayerSigGen.cpp
index a72100e..b97d65a 100644
--- a/lib/PlayerSigGen.cpp
+++ b/lib/PlayerSigGen.cpp
@@ -209,10 +209,10 @@ PlayerSigGen::start ()
                 "volume", _prop.volume, nullptr);
 
   ret = gst_element_set_state (_pipeline, GST_STATE_PLAYING);
+  Player::start ();
   if (unlikely (ret == GST_STATE_CHANGE_FAILURE))
     Player::setEOS (true);
 
-  Player::start ();
   TRACE ("started");
 }
 
-- 
2.43.0


From c13433970929c8eafae4edc35aedecdabc345a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:57 +0000
Subject: [PATCH 84/84] fix: media started at an anchor lost the fraction of
 its begin

---
 lib/Media.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index cd60d33..c5e5b24 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -219,8 +219,11 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
                     if (begin == GINGA_TIME_NONE)
                       begin = 0;
 
-                    string time_seek = xstrbuild ("%" G_GUINT64_FORMAT,
-                                                  begin / GINGA_SECOND);
+                    string time_seek
+                        = xstrbuild ("%" G_GUINT64_FORMAT
+                                     ".%09" G_GUINT64_FORMAT,
+                                     begin / GINGA_SECOND,
+                                     begin % GINGA_SECOND);
                     TRACE ("time_seek %ss", time_seek.c_str ());
                     _player->setProperty ("time", time_seek);
 
-- 
2.43.0

