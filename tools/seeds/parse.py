seed("c13-mutual-import", "C13", "lib/Parser.cpp", (
"""  for (auto &it : _aliasStack)
    if (it.second == path)
      return false;
""", """  if (!_aliasStack.empty () && _aliasStack.back ().second == path)
    return false;
"""), "two imported documents that import each other", "the parser recurses without end and crashes instead of reporting a circular import", r'''
void demo () {
  put ("a.ncl", "<ncl><head><regionBase><importBase alias='b' documentURI='b.ncl'/></regionBase></head></ncl>");
  put ("b.ncl", "<ncl><head><regionBase><importBase alias='a' documentURI='a.ncl'/></regionBase></head></ncl>");
  string err;
  Document *d = Parser::parseFile (put ("main.ncl", "<ncl><head><regionBase><importBase alias='x' documentURI='a.ncl'/></regionBase></head><body/></ncl>"), 800, 600, &err);
  CHECK ("refused", d == nullptr); CHECK ("with a message", err.find ("circular") != string::npos);
}
''')
seed("c14-blank-negation", "C14", "lib/Parser.cpp", (
"""                 && pred->getChildren ()->size () == 0))
      || ((type == Predicate::CONJUNCTION || type == Predicate::DISJUNCTION)
""", """                 && pred->getChildren ()->size () == 0
                 && elt->getNode ()->children == nullptr))
      || ((type == Predicate::CONJUNCTION || type == Predicate::DISJUNCTION)
"""), "a negated compound statement that contains only a comment or white space", "the empty negation is accepted and crashes when evaluated", r'''
void demo () {
  string err, t = ncl ("<port id='p' component='m'/><media id='m'/><link xconnector='k'><bind role='onBegin' component='m'/><bind role='stop' component='m'/></link>",
    "<connectorBase><causalConnector id='k'><compoundCondition operator='and'><simpleCondition role='onBegin'/><compoundStatement operator='not'> </compoundStatement></compoundCondition><simpleAction role='stop'/></causalConnector></connectorBase>");
  Document *d = Parser::parseBuffer (t.data (), t.size (), 800, 600, &err);
  CHECK ("refused", d == nullptr);
}
''')
seed("c14-other-context-port", "C14", "lib/Parser.cpp", (
"""          if (ctx->getId () != obj->getId ())
            goto fail;

""", ""), "an interface that names a port of another context than the component", "the reference is accepted and acts on the other context", r'''
void demo () {
  string err, t = ncl ("<port id='p' component='c' interface='q2'/><context id='c'><port id='q' component='m'/><media id='m'/></context><context id='e'><port id='q2' component='n'/><media id='n'/></context>");
  Document *d = Parser::parseBuffer (t.data (), t.size (), 800, 600, &err);
  CHECK ("refused", d == nullptr); CHECK ("named", err.find ("line") != string::npos);
}
''')
seed("c14-one-test-bound", "C14", "lib/Parser.cpp", (
"""              bool found = false;
              for (auto bind : tests_buf)
                {
                  if (label == bind->role)
""", """              bool found = tests_buf.size () > 1;
              for (auto bind : tests_buf)
                {
                  if (label == bind->role)
"""), "a connector with three assessment roles of which a link binds two", "a link that does not match its connector is accepted", r'''
void demo () {
  string c, b; for (string r : { "x", "y", "z" }) c += "<assessmentStatement comparator='eq'><attributeAssessment role='" + r + "'/><valueAssessment value='1'/></assessmentStatement>";
  for (string r : { "x", "z" }) b += "<bind role='" + r + "' component='m' interface='v'/>";
  string err, t = ncl ("<port id='p' component='m'/><media id='m'><property name='v' value='1'/></media><link xconnector='k'><bind role='onBegin' component='m'/><bind role='stop' component='m'/>" + b + "</link>",
    "<connectorBase><causalConnector id='k'><compoundCondition operator='and'><simpleCondition role='onBegin'/><compoundStatement operator='and'>" + c + "</compoundStatement></compoundCondition><simpleAction role='stop'/></causalConnector></connectorBase>");
  Document *d = Parser::parseBuffer (t.data (), t.size (), 800, 600, &err);
  CHECK ("refused", d == nullptr);
}
''')
seed("c15-empty-bindparam", "C15", "lib/Parser.cpp", (
"""  if (it_bind != bindParams->end ())
    {
      result = it_bind->second;
""", """  if (it_bind != bindParams->end () && it_bind->second != "")
    {
      result = it_bind->second;
"""), "a bindParam with an empty value that overrides a linkParam", "the linkParam's value is used", r'''
void demo () {
  Play p (ncl ("<port id='p' component='m'/><media id='m'><property name='x' value='1'/></media><link xconnector='k'><linkParam name='v' value='7'/><bind role='onBegin' component='m'/><bind role='set' component='m' interface='x'><bindParam name='v' value=''/></bind></link>",
    "<connectorBase><causalConnector id='k'><connectorParam name='v'/><simpleCondition role='onBegin'/><simpleAction role='set' value='$v'/></causalConnector></connectorBase>"));
  p.tick (0); p.tick (0);
  CHECK ("x is empty", p.prop ("m", "x") == "");
}
''')
seed("c15-shared-predicate", "C15", "lib/Parser.cpp", (
"""              case 1:
                pred->addChild (children->front ()->clone ());
                break;
              default:
                pred->addChild (p->clone ());
                break;
              }
          }
        return pred;
""", """              default:
                pred->addChild (children->front ()->clone ());
                break;
              }
          }
        return pred;
"""), "a condition nested in two compound conditions, one of which has two statements", "the second statement is ignored", r'''
void demo () {
  auto as = [] (string r, string v) { return "<assessmentStatement comparator='eq'><attributeAssessment role='" + r + "'/><valueAssessment value='" + v + "'/></assessmentStatement>"; };
  Play p (ncl ("<port id='p' component='m'/><media id='m'><property name='x' value='1'/><property name='y' value='0'/></media><link xconnector='k'><bind role='onBegin' component='m'/><bind role='t' component='m' interface='x'/><bind role='set' component='m' interface='y'/></link>",
    "<connectorBase><causalConnector id='k'><compoundCondition operator='and'>" + as ("t", "1") + as ("t", "2") + "<compoundCondition operator='and'><simpleCondition role='onBegin'/>" + as ("t", "1") + "</compoundCondition></compoundCondition><simpleAction role='set' value='9'/></causalConnector></connectorBase>"));
  p.tick (0); p.tick (0);
  CHECK ("y was not set", p.prop ("m", "y") == "0");
}
''')
seed("c16-nested-relative", "C16", "lib/Parser.cpp", (
"""  if (!st->aliasStackPeek (nullptr, &main_uri))
    main_uri = st->getURI ();
""", """  main_uri = st->getURI ();
"""), "an imported document in another directory that imports a third one by a relative path", "the path is resolved against the main document's directory", r'''
#include <sys/stat.h>
void demo () {
  mkdir ((string (getenv ("DEMO_TMP")) + "/sub").c_str (), 0755);
  put ("sub/b.ncl", "<ncl><head><regionBase><region id='r' left='10'/></regionBase></head></ncl>");
  put ("sub/a.ncl", "<ncl><head><regionBase><importBase alias='b' documentURI='b.ncl'/></regionBase></head></ncl>");
  string err;
  Document *d = Parser::parseFile (put ("main.ncl", ncl ("<port id='p' component='m'/><media id='m' descriptor='d'/>", "<regionBase><importBase alias='x' documentURI='sub/a.ncl'/></regionBase><descriptorBase><descriptor id='d' region='x#b#r'/></descriptorBase>")), 800, 600, &err);
  CHECK ("accepted", d != nullptr); if (!d) printf ("%s\n", err.c_str ());
}
''')
seed("c16-nested-extra-bases", "C16", "lib/Parser.cpp", (
"""  if (parent_elt->getTag () == "descriptorBase")
    {
      list<string> extra""", """  if (parent_elt->getTag () == "descriptorBase"
      && st->_aliasStack.size () == 1)
    {
      list<string> extra"""), "a descriptor base imported through another imported descriptor base", "the regions and transitions that its descriptors name are not imported with it", r'''
void demo () {
  put ("b.ncl", "<ncl><head><regionBase><region id='r' left='10'/></regionBase><descriptorBase><descriptor id='d' region='r'/></descriptorBase></head></ncl>");
  put ("a.ncl", "<ncl><head><descriptorBase><importBase alias='b' documentURI='b.ncl'/></descriptorBase></head></ncl>");
  string err;
  Document *d = Parser::parseFile (put ("main.ncl", ncl ("<port id='p' component='m'/><media id='m' descriptor='x#b#d'/>", "<descriptorBase><importBase alias='x' documentURI='a.ncl'/></descriptorBase>")), 800, 600, &err);
  CHECK ("accepted", d != nullptr); if (!d) printf ("%s\n", err.c_str ());
}
''')
seed("c16-alias-order", "C16", "lib/Parser.cpp", (
"""    result += it.first + "#";
""", """    result = it.first + "#" + result;
"""), "a nested import", "prefixes of nested imports are built inside out", r'''
void demo () {
  put ("b.ncl", "<ncl><head><regionBase><region id='r' left='10'/></regionBase></head></ncl>");
  put ("a.ncl", "<ncl><head><regionBase><importBase alias='b' documentURI='b.ncl'/></regionBase></head></ncl>");
  string err;
  Document *d = Parser::parseFile (put ("main.ncl", ncl ("<port id='p' component='m'/><media id='m' descriptor='d'/>", "<regionBase><importBase alias='x' documentURI='a.ncl'/></regionBase><descriptorBase><descriptor id='d' region='x#b#r'/></descriptorBase>")), 800, 600, &err);
  CHECK ("accepted", d != nullptr); if (!d) printf ("%s\n", err.c_str ());
}
''')
LUA = r'''
static Document *lua (const string &t) { string e; Document *d = ParserLua::parseBuffer (t.data (), t.size (), &e); if (!d) printf ("%s\n", e.c_str ()); return d; }
'''
seed("c17-area-begin-kept", "C17", "lib/ParserLua.cpp", ((
"""    luaL_checktype (L, 5, LUA_TTABLE);
    lua_pushnil (L);
    while (lua_next (L, 5) != 0)
    {
      luaL_checktype (L, -1, LUA_TTABLE);
      lua_rawgeti (L, -1, 1);
      name""", """    luaL_checktype (L, 5, LUA_TTABLE);
    lua_pushnil (L);
    begin = 0;
    while (lua_next (L, 5) != 0)
    {
      luaL_checktype (L, -1, LUA_TTABLE);
      lua_rawgeti (L, -1, 1);
      name"""), (
"""      begin = 0;
      if ((value != NULL)
""", """      if ((value != NULL)
""")), "a table's media with an anchor without begin after one with begin", "the later anchor inherits the earlier one's begin", LUA + r'''
void demo () {
  Document *d = lua ("return { 'context', 'r', nil, nil, { { 'media', 'm', nil, { { 'a', '2s', '3s' }, { 'b', nil, '5s' } } } } }");
  CHECK ("accepted", d != nullptr); if (!d) return;
  Time b, e; d->getObjectById ("m")->getPresentationEvent ("b")->getInterval (&b, &e);
  CHECK ("b begins at 0", b == 0); CHECK ("b ends at 5 s", e == 5 * GINGA_SECOND);
}
''')
seed("c17-or-one-operand", "C17", "lib/ParserLua.cpp", (
"""    lua_pushcfunction (L, l_parse_predicate); // children
    lua_pushlightuserdata (L, it);
    lua_rawgeti (L, 2, 3);
    lua_call (L, 2, 0);
""", """    lua_pushcfunction (L, l_parse_predicate); // children
    lua_pushlightuserdata (L, type == Predicate::DISJUNCTION ? it : parent);
    lua_rawgeti (L, 2, 3);
    lua_call (L, 2, 0);
"""), "a disjunction one operand of which is a conjunction", "the conjunction's second operand joins the disjunction", LUA + r'''
static void all (Predicate *p, string &s) { s += "("; s += (char) ('0' + (int) p->getType ()); auto c = p->getChildren (); if (p->getType () != Predicate::ATOM) for (auto x : *c) all (x, s); s += ")"; }
void demo () {
  Document *d = lua ("return { 'context', 'r', nil, nil, { { 'media', 'm', { x='1', y='0' } } }, { { { { 'start', 'm@lambda', { 'or', { '$m.x', '==', '1' }, { 'and', { '$m.x', '==', '1' }, { '$m.y', '==', '1' } } } } }, { { 'set', 'm.y', '9' } } } } }");
  CHECK ("accepted", d != nullptr); if (!d) return;
  Predicate *p = nullptr; for (auto &l : *d->getRoot ()->getLinks ()) p = l.first.front ().predicate;
  string s, a = "("; a += (char) ('0' + (int) Predicate::ATOM); a += ")";
  all (p, s);
  string D (1, (char) ('0' + (int) Predicate::DISJUNCTION)), C (1, (char) ('0' + (int) Predicate::CONJUNCTION));
  CHECK ("shape", s == "(" + D + "(" + C + a + a + ")" + a + ")" || s == "(" + D + a + "(" + C + a + a + "))"); printf ("%s\n", s.c_str ());
}
''')
seed("c17-duration-default-delay", "C17", "lib/ParserLua.cpp", (
"""      lua_getfield (L, 11, "duration");
      if (!lua_isnil (L, -1))
""", """      if (lua_isnil (L, -1))
        lua_getfield (L, 11, "duration");
      else
        lua_pushnil (L);
      if (!lua_isnil (L, -1))
"""), "an action of a table with both a delay and a duration", "the duration is dropped", LUA + r'''
void demo () {
  Document *d = lua ("return { 'context', 'r', nil, nil, { { 'media', 'm', { x='1' } } }, { { { { 'start', 'm@lambda' } }, { { 'set', 'm.x', '9', { delay='1s', duration='2s' } } } } } }");
  CHECK ("accepted", d != nullptr); if (!d) return;
  for (auto &l : *d->getRoot ()->getLinks ()) { CHECK ("duration", l.second.front ().duration == "2s"); CHECK ("delay", l.second.front ().delay == "1s"); }
}
''')
seed("c22-uint8-wrap", "C22", "lib/aux-ginga.cpp", (
"""    return (g##Type) (MIN (x, Typemax));                                   \\
""", """    return (g##Type) (MIN ((guint) x, Typemax));                           \\
"""), "an unsigned number beyond 32 bits", "it wraps around instead of being clamped", r'''
void demo () {
  CHECK ("clamped", ginga::xstrtouint8 ("4294967296", 10) == 255); CHECK ("7", ginga::xstrtouint8 ("7", 10) == 7);
}
''')
seed("c23-buildabs-dot", "C23", "lib/aux-ginga.cpp", (
"""  return xpathmakeabs ((a == ".") ? b : xpathbuild (a, b));
""", """  return xpathmakeabs ((a[0] == '.') ? b : xpathbuild (a, b));
"""), "a base directory whose name begins with a dot", "the base is dropped", r'''
void demo () {
  string s = ginga::xpathbuildabs (".cfg", "x"); CHECK ("kept", s.find ("/.cfg/x") != string::npos); CHECK ("dot", ginga::xpathbuildabs (".", "x") == ginga::xpathmakeabs ("x"));
}
''')
seed("c27-same-pointer", "C27", "lib/aux-ginga.cpp", (
"""  if (it != _udata.end () && it->second.second)
    it->second.second (it->second.first);
""", """  if (it != _udata.end () && it->second.second
      && (value != nullptr || fn == nullptr || fn == it->second.second))
    it->second.second (it->second.first);
"""), "a datum removed by setting null together with another clean-up function", "the datum is never released", r'''
static int n; static void c1 (void *) { n++; } static void c2 (void *) {}
void demo () {
  { Document d; int x; d.setData ("k", &x, c1); d.setData ("k", nullptr, c2); CHECK ("released", n == 1); void *v; CHECK ("gone", !d.getData ("k", &v)); }
  CHECK ("once", n == 1);
}
''')
