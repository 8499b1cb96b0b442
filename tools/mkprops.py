#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Every event obeys the NCL event state machine",
 "Whatever transitions are requested, in whatever order, on the events (presentation, attribution, selection) of media, contexts and switches, an event only moves sleeping->occurring (or paused->occurring) on start, occurring->paused on pause, paused->occurring on resume and occurring/paused->sleeping on stop or abort; a request that is illegal in the event's current state is refused and changes no event state, object time or property. A transition request never crashes the player.",
 ["histories"], "all sequences of transition requests (5 transitions x the events of a small presentation) up to a depth, interleaved with ticks",
 "The tests make one or two transitions from a handful of states; the guarantee quantifies over every history of requests.",
 ["lib/Event.cpp", "lib/Media.cpp", "lib/Context.cpp", "lib/Switch.cpp"],
 [("transition table", "Event::transition"), ("type-specific hooks", "Object::beforeTransition/afterTransition")],
 ["Event::getState", "Event::transition result", "Object::getTime", "Object::getProperty"])

prop("C02", "Contexts and switches carry their content along",
 "After any history of links, ticks, keys and requested transitions, when a context or switch is stopped or aborted everything inside it (at any depth: media, anchors, nested compositions) is sleeping, and nothing inside a sleeping composition is ever awake except through the composition itself being started along with it. Pausing a composition pauses exactly its occurring content and resuming it resumes exactly its paused content; starting it again begins from a fresh state (playback time zero, its ports started again).",
 ["histories", "programs"], "all operation histories up to a depth over nested documents (context in context, switch in context, context in switch)",
 "Tests stop/pause one context holding two media once; nesting, repetition and mixtures of pause/stop/restart are untested.",
 ["lib/Context.cpp", "lib/Switch.cpp", "lib/Composition.cpp", "lib/Object.cpp"],
 [("cascade to children", "Context::beforeTransition, Switch::beforeTransition"), ("reset on stop", "Object::doStop")],
 ["event states of all objects after every step", "Object::getTime"])

prop("C03", "Presentations end when, and only when, nothing is left to play",
 "A context ends by itself at a tick exactly when none of its children is awake any more, and the whole presentation ends (the player reports itself stopped at the following tick or key) exactly when nothing but the settings object is left awake in the body. No history of starts, stops, aborts, pauses, resumes, natural ends and restarts makes a context end while a child is still awake or keeps it running after the last one ended.",
 ["histories", "programs"], "all histories of child starts/stops/pauses/ends over nested contexts and switches, up to a depth",
 "The natural-end tests follow one path; the awake-children bookkeeping must balance over all histories.",
 ["lib/Context.cpp", "lib/Object.cpp", "lib/Formatter.cpp", "lib/Switch.cpp"],
 [("awake children bookkeeping", "Context::incAwakeChildren/decAwakeChildren, Object::doStart/doStop"), ("end-of-presentation check", "Context::sendTick, Formatter::sendTick/sendKey")],
 ["context lambda state after each tick", "Ginga::getState"])

prop("C04", "Links fire exactly once per matching transition, in order",
 "Every time an event makes a transition that matches a condition of a link and that condition's predicate (if any) holds at that moment, and the link's context is occurring, each of the link's undelayed actions is performed exactly once, in the order written, before the call that caused the transition returns; transitions that were refused, that do not match, or whose predicate is false trigger nothing. Actions may trigger further links, and this cascades depth-first (an action's own consequences are completed before the next action of the same link) until nothing more matches.",
 ["programs", "histories"], "all small documents built from up to three links over two to three objects, times all stimuli sequences up to a depth",
 "Tests contain one or two fixed links; the guarantee is about every link graph (fan-out, chains, cycles, aliases, ports) and every history.",
 ["lib/Document.cpp", "lib/Context.cpp"],
 [("action stack", "Document::evalAction"), ("link matching", "Document::evalActionInContext")],
 ["order of successful event transitions during each API call", "resulting states and property values"])

prop("C05", "Delayed link actions run once, on time, in playback time",
 "An action with a delay D triggered at context time T runs exactly once, at the first tick at which the context's accumulated playback time has reached T+D, never earlier, however time is split into ticks; actions due at the same tick run in trigger order. Time spent while the context is paused does not count, a stop or abort of the context before the due time cancels the action, and a delay given as a property reference uses the property's value when the link fires.",
 ["schedules", "histories"], "all partitions of a time span into ticks from a small set of increments, with pause/resume/stop inserted at every position",
 "Tests use one tick pattern; the guarantee is over every partition of time and every interleaving of pause/resume/stop.",
 ["lib/Object.cpp", "lib/Document.cpp", "lib/Context.cpp"],
 [("delayed action list", "Object::addDelayedAction, Object::sendTick"), ("delay evaluation", "Document::evalActionInContext")],
 ["tick at which the target event changes state"])

prop("C06", "Anchors and explicit duration follow the media timeline",
 "While a media object plays, each temporal anchor [begin,end] starts at the first tick whose playback time is at least begin and stops at the first tick whose playback time is at least end, and the object itself ends at the first tick whose playback time exceeds its explicit duration, whatever the tick partition and with paused time not counted. Starting the object through an anchor starts the object with it, skips anchors that lie outside it, keeps the timeline relative to the anchor's begin, and every anchor is sleeping once the object is.",
 ["schedules", "programs"], "all placements of two anchors and a duration on a small grid, times all tick partitions and pause points",
 "The anchor tests use one pair of anchors and whole-second ticks.",
 ["lib/Media.cpp", "lib/Object.cpp", "lib/Player.cpp"],
 [("anchor scheduling", "Media::afterTransition, Media::beforeTransition"), ("duration check", "Media::sendTick")],
 ["anchor and lambda states after each tick"])

prop("C07", "Conditions and rules evaluate as Boolean logic over property values",
 "A rule, compound rule or link assessment evaluates to the truth value of its formula: comparators compare the two operands' string values (a property reference stands for the property's current value, the empty string if unset), 'and'/'or'/'not' (isNegated) combine them as in Boolean algebra, an empty conjunction is true and an empty disjunction false (a compositeRule without any rule never selects). Evaluation has no side effect, and a copy of a predicate evaluates to the same value as the original in every state.",
 ["programs", "inputs"], "all formulas up to a size over a set of atoms covering all comparators, under all valuations of the referenced properties, both through the API and through NCL documents",
 "The tests evaluate a dozen formulas; all connective nestings and valuations are out of reach.",
 ["lib/Document.cpp", "lib/Predicate.cpp", "lib/Parser.cpp"],
 [("evaluator", "Document::evalPredicate"), ("predicate tree", "Predicate"), ("from NCL", "Parser: rule/compositeRule/assessmentStatement/compoundCondition")],
 ["Document::evalPredicate", "which link or switch branch acts"])

prop("C08", "A switch plays exactly the first applicable alternative",
 "Starting a switch (directly or through one of its switchPorts) starts exactly one of its components, namely the first in bindRule order whose rule holds at that moment (for a switchPort: among the components it maps), otherwise the defaultComponent, and nothing at all, the switch remaining sleeping, if no rule holds and there is no default. The selection is not revised while the switch is active; pausing, resuming, stopping or aborting the switch acts on the selected component, and the switch ends when that component ends.",
 ["programs", "histories"], "all switches with up to three alternatives over a rule alphabet, with/without default and switchPort, under all property valuations and histories of operations",
 "Tests have one switch with two rules and one valuation.",
 ["lib/Switch.cpp", "lib/Document.cpp", "lib/Parser.cpp"],
 [("selection", "Switch::beforeTransition"), ("rules/ports", "Switch::addRule, Switch::addSwitchPort"), ("construction", "Parser::pushSwitch")],
 ["states of switch and alternatives after each step"])

prop("C09", "Attributions store the right value, once, and come to rest",
 "An attribution ('set') on a property of a media, settings or context stores exactly the given value, where a reference $object.property stands for the value that property has when the action is performed and an unresolvable reference is stored literally; no other property changes. The attribution event is occurring until the attribution's duration has elapsed in the object's playback time and then returns to sleeping by itself, so that later attributions always take effect, also on objects that are not playing.",
 ["histories", "inputs"], "all sequences of attributions (literal, reference, chained references, durations) on up to three objects in every playback state, up to a depth",
 "Tests set one property once.",
 ["lib/Document.cpp", "lib/Media.cpp", "lib/Context.cpp", "lib/Object.cpp", "lib/MediaSettings.cpp"],
 [("property references", "Document::evalPropertyRef"), ("attribution event", "Media/Context::afterTransition")],
 ["Object::getProperty", "attribution event state"])

prop("C10", "Keys reach exactly the selections they should",
 "A key press starts, and its release stops, exactly those selection events of awake media whose expected key equals it, or whose expected key is unspecified when the key is ENTER and the media has the focus; objects that are sleeping, other keys and objects without the focus are unaffected. Every resulting link is triggered exactly once per press.",
 ["histories", "programs"], "all key press/release/tick sequences up to a depth over documents with keyed, unkeyed, focused and unfocused media, in every playback state",
 "Tests press one or two keys in one state.",
 ["lib/Media.cpp", "lib/Formatter.cpp", "lib/Parser.cpp"],
 [("dispatch", "Formatter::sendKey, Media::sendKey"), ("key parameter", "Parser::pushLink")],
 ["selection event states", "states of linked objects"])

prop("C11", "Focus follows focusIndex and the moveX properties",
 "At a tick after focusable media start, the focus goes to the occurring media with the least focusIndex; a cursor key press on the focused media moves the focus at the next tick to the index named by its moveUp/Down/Left/Right property and otherwise leaves it alone; assigning service.currentFocus moves it immediately. At most the media carrying the current index is focused, and a media that is not playing never is.",
 ["histories", "programs"], "all cursor/tick/attribution/start/stop sequences up to a depth over up to three focusable media with all move topologies of a small set",
 "The focus tests follow two fixed scripts.",
 ["lib/MediaSettings.cpp", "lib/Media.cpp", "lib/Object.cpp", "lib/Player.cpp"],
 [("pending focus update", "MediaSettings::scheduleFocusUpdate/updateCurrentFocus"), ("cursor keys", "Media::sendKey")],
 ["Media::isFocused", "service.currentFocus"])

prop("C12", "The player API is a well-behaved stopped/playing state machine",
 "start succeeds only when stopped and only for a valid document, stop only when playing; ticks and keys are accepted only while playing, and every call on a stopped player is refused without effect; options read back what was last set. A presentation started after another one was stopped or ended (or failed to start) behaves exactly as it does in a fresh player.",
 ["histories"], "all sequences of API calls (start of several documents, valid and invalid, stop, tick, key, resize, redraw, options) up to a depth",
 "API tests call each function in one or two states; independence of successive presentations is untested.",
 ["lib/Formatter.cpp", "lib/Ginga.cpp", "lib/Player.cpp", "lib/Parser.cpp"],
 [("state guard", "Formatter::start/stop/sendKey/sendTick"), ("options", "Formatter::getOption*/setOption*")],
 ["return values", "Ginga::getState", "full document state after each step"])

prop("C13", "Every NCL input yields a document or an error, never a crash",
 "For every input text, NCL (XML) or table (Lua), well-formed or not, the parser returns either a document or no document together with a non-empty error message, in bounded time and without memory errors; a document that is returned, if its property values are well formed (malformed values are reported by a deliberate abort) and the content it names exists, can be started, ticked and stopped without crashing.",
 ["inputs"], "all documents obtained from a set of feature-covering documents by every single and pairs of small structural edits (delete/duplicate/move element, drop/alter/add attribute, dangling and clashing references), each then played",
 "Parser tests check about 150 fixed inputs; the guarantee is over every malformed tree.",
 ["lib/Parser.cpp", "lib/ParserLua.cpp", "lib/Document.cpp"],
 [("syntax table", "Parser: syntax_table"), ("error reporting", "ParserState::error*")],
 ["parse result and message", "process exit status"])

prop("C14", "The parser accepts exactly the NCL grammar it documents",
 "An element is accepted only under a parent, with the attributes, and with the references the NCL profile allows: a missing required attribute, an unknown attribute or element, a misplaced element, an ill-formed or duplicated id, or a reference (component, interface, refer, region, descriptor, rule, connector, constituent, role) that does not resolve to an element of the right kind in the right scope is reported as an error naming the offending element's line, and a document without any of these is accepted.",
 ["inputs"], "every element x every possible parent x every attribute (present/absent/unknown/bad), and every reference site x every kind of target, over a small complete document",
 "Tests reject about a hundred fixed inputs and accept few.",
 ["lib/Parser.cpp"],
 [("syntax table", "Parser: syntax_table"), ("reference resolution", "ParserState::resolve*/push*")],
 ["Parser::parseBuffer/parseFile result and message"])

prop("C15", "A parsed link does what its connector and binds say",
 "Instantiating a causal connector through a link yields exactly one condition per condition-role bind and one action per action-role bind, in the order the link binds them, with each $parameter replaced by the bindParam, else linkParam, of that name; event type, transition, value, delay, duration and key come from the role. Playing the document shows those and no other effects.",
 ["programs", "inputs"], "all connectors from a set of simple/compound condition and action shapes, times all bindings with parameters given at bind, link or nowhere",
 "Tests use a few fixed connectors.",
 ["lib/Parser.cpp"],
 [("connector tables", "Parser: reserved condition/action roles"), ("link instantiation", "ParserState::pushLink/obtain*")],
 ["Context::getLinks", "resulting behaviour"])

prop("C16", "Imports and aliases mean the same as writing it inline",
 "A document that imports regions, descriptors, rules or connectors from other files (importBase, with prefix#id references, nested imports and relative paths) is equivalent to the document with the imported elements written inline: it is accepted or rejected alike, has the same objects, events, properties and links, and plays identically.",
 ["programs"], "all ways of splitting a small document's bases over imported files (bases x depth x reference), against the inline original",
 "Tests import one or two fixed files.",
 ["lib/Parser.cpp"],
 [("imports", "ParserState::pushImportBase / importedDocumentBase")],
 ["document dump", "behaviour under the same inputs"])

prop("C17", "The table (Lua) syntax builds the same presentation as NCL",
 "For every document expressible in both syntaxes, parsing the Lua table form yields a document with the same objects, events, ports, links, conditions, actions, delays, switch rules, properties and behaviour as parsing the NCL form; a script whose result is not a well-formed presentation table (wrong types, unknown tags, components, interfaces or transitions, taken names) is refused with an error message, without a document and without crashing.",
 ["programs"], "all small documents of a generator covering contexts, media, properties, anchors, ports, links with predicates and delays",
 "Tests check a few fixed tables in isolation.",
 ["lib/ParserLua.cpp", "lib/Parser.cpp"],
 [("table reader", "ParserLua: parse_context/parse_media/parse_link")],
 ["document dump", "behaviour under the same inputs"])

prop("C18", "Media are laid out where their region and properties say",
 "A playing media occupies the rectangle its properties denote on the current screen: left, top, width and height (right or bottom instead of left or top) in percentages of the screen or in pixels, negative values counting as zero, bounds, location and size as shorthands, the whole screen by default; properties declared without a value change nothing. A region is resolved the same way within its enclosing region, or the initial screen, and then scales with the screen. This holds in every playback state and after any sequence of resizes and attributions.",
 ["inputs", "histories"], "all combinations of position properties from a value alphabet, all two-level region nestings, times sequences of resizes up to a depth",
 "One grid test with fixed quarters exists and cannot run headless.",
 ["lib/Player.cpp", "lib/Parser.cpp", "lib/Formatter.cpp"],
 [("geometry properties", "Player::doSetProperty"), ("regions", "Parser::pushRegion"), ("resize", "Formatter::resize")],
 ["pixels drawn by Ginga::redraw"])

prop("C19", "What is drawn is the stack of visible media in z order",
 "Redrawing shows, over a black screen and the background option's colour, exactly the awake, visible, non-empty media, each with its background and transparency, stacked by ascending zIndex and then zOrder; redrawing changes no playback state, and drawing twice gives the same picture.",
 ["inputs", "histories"], "all assignments of zIndex/zOrder/visible/transparency/background from small alphabets to up to three overlapping media, in every playback state",
 "No rendering test exists apart from a smoke test.",
 ["lib/Formatter.cpp", "lib/Player.cpp", "lib/Media.cpp"],
 [("z sort", "Formatter::redraw, zcmp"), ("painting", "Player::redraw")],
 ["pixels of the target surface"])

prop("C20", "Animated attributions interpolate from old to new value",
 "An attribution with a duration on an animatable numeric property (left, top, width, height, transparency, and the compound bounds, location and size) moves the drawn value monotonically from the old value to the new one, reaching the new value exactly no later than the first redraw at or after the duration has elapsed and never leaving the interval between them, for every tick partition and pause; attributions without duration take effect at once, also during an animation, and properties that are not animated have their value when the duration ends. Background colours change likewise. A transition at the start of a media reveals it monotonically and in proportion to the time elapsed (a barWipe by a moving edge, a diagonalWipe from the top left corner, any other kind by fading in), without touching anything else, and leaves it fully shown when its duration has elapsed.",
 ["schedules", "inputs"], "all from/to pairs of a value alphabet per property, all durations and tick partitions of a small set, including overlapping animations of different properties",
 "There is no animation test.",
 ["lib/PlayerAnimator.cpp", "lib/Player.cpp", "lib/Media.cpp"],
 [("interpolation", "PlayerAnimator::schedule/update")],
 ["pixels drawn by Ginga::redraw after each tick"])

prop("C21", "Referring media are the object they refer to",
 "A media element with refer denotes the very object it refers to: starting, stopping, setting or observing one through either name, from any context, has the same effect, its interfaces are the union of both elements' anchors and properties, and links in each context that names the object see each of its transitions exactly once while that context is occurring.",
 ["programs", "histories"], "all placements of one or two referring elements (same context, other context, settings) times all histories of stimuli up to a depth",
 "The refer tests check one start and need an image from the network.",
 ["lib/Parser.cpp", "lib/Document.cpp", "lib/Object.cpp"],
 [("aliases", "Object::addAlias, Document::getObjectByIdOrAlias"), ("link dispatch to alias contexts", "Document::evalAction")],
 ["states of all objects", "link effects"])

prop("C22", "Attribute literals are parsed totally and exactly",
 "The readers of booleans, integers, floating-point numbers, times (seconds, hh:mm:ss), percentages, pixels, colours, lists and tables accept the documented syntax (numbers: the longest numeric prefix, as C's strtol and strtod do), return the mathematically right value (rounded, and clamped to the stated range however large the number), report everything else as an error, and never crash, hang or read outside the string.",
 ["inputs"], "all strings up to a length over an alphabet of digits, signs, separators, units, spaces and junk, plus structured numeric grids",
 "The literal tests check some hundred values.",
 ["lib/aux-ginga.cpp", "lib/aux-ginga.h"],
 [("parsers", "try_parse_*, _xstrto*")],
 ["return value and result"])

prop("C23", "Path and URI helpers agree on what a path denotes",
 "Classifying, joining, splitting and making absolute a path or URI agree with each other: joining two paths concatenates their components, dirname and basename of a path rebuild it, a made-absolute path is absolute and denotes the same file, an absolute path survives the round trip through its URI, a source resolves against its base unless it is absolute or a URI itself, reading a URI returns the file's whole content or fails, and prefix/suffix/strip/case helpers agree with their textbook definitions.",
 ["inputs"], "all strings up to a length over an alphabet of letters, '/', '.', ':', '%', spaces, and pairs of them",
 "The helper tests check a handful of values each.",
 ["lib/aux-ginga.cpp"],
 [("helpers", "xpath*, xuri*, xstr*")],
 ["return values"])

prop("C24", "Remote requests act exactly like local events, or are refused",
 "A request to the presentation's web service performs the selection or look event it names on the named object, exactly once and with all linked consequences, and reports success; a request that is malformed, names an unknown object, interface, key or action, or arrives while no document plays is answered with 'not found' and changes nothing. No request crashes the player.",
 ["inputs", "histories"], "all requests over path shapes x body shapes x actions x targets, in every playback state of a small document, up to two in sequence",
 "No test covers the request handler.",
 ["lib/WebServices.cpp", "lib/PlayerRemote.cpp", "lib/Document.cpp"],
 [("route handlers", "WebServices cb_apps/cb_remoteplayer")],
 ["response status", "states of all objects"])

prop("C25", "No lifecycle leaks or corrupts memory",
 "No sequence of parsing, starting, ticking, keys, attributions, redraws, stops and restarts accesses memory out of bounds or after its release; what is observed never depends on what freshly allocated memory happens to contain; and once the document or the player has been destroyed, nothing that was allocated for it remains: repeating the same history leaves no more memory allocated than before.",
 ["histories", "programs"], "all operation sequences up to a depth over feature-covering documents, in an address- and leak-checked build",
 "Tests are not run under checkers, and each run covers one history.",
 ["lib/Document.cpp", "lib/Context.cpp", "lib/Media.cpp", "lib/Player.cpp", "lib/PlayerAnimator.cpp", "lib/Parser.cpp"],
 [("ownership", "destructors of Document, Composition, Object, Player")],
 ["AddressSanitizer/LeakSanitizer reports"])

prop("C26", "The document is a consistent tree with unique names",
 "However a document is built, through the API (with names that are free) or by the parser, its objects form a tree rooted at the body, each object belongs to exactly one document and one parent, every id and alias denotes at most one object, lookups by id or alias return precisely the object that carries it (or nothing), an object has at most one event per type and id, and adding something twice is refused or has no effect.",
 ["histories"], "all sequences of construction calls (add object/child/alias/event/port, lookups) up to a depth over a small id alphabet",
 "Tests add and look up one or two objects.",
 ["lib/Document.cpp", "lib/Composition.cpp", "lib/Object.cpp"],
 [("registries", "Document::addObject, Composition::addChild, Object::add*Event/addAlias")],
 ["Document/Composition/Object lookups"])

prop("C27", "Attached user data is kept and released exactly once",
 "User data attached to a document under a key is returned by every later lookup of that key until it is replaced or removed, and each attached datum's clean-up function is called exactly once, when it is replaced, removed or the owner is destroyed, and never before.",
 ["histories"], "all sequences of set/replace/remove/get/destroy over two keys and values with and without clean-up functions, up to a depth",
 "No test attaches data more than once.",
 ["lib/aux-ginga.cpp", "lib/Document.cpp"],
 [("registry", "UserData::getData/setData, destructor")],
 ["returned values", "clean-up calls"])

prop("C28", "Media get the player and defaults their type and source call for",
 "The kind of player a media gets is determined by its declared type if it has one and otherwise by its source's extension (unknown or none: an empty timed player), the effective type is published in the media's type property, and the effect of a property is the same whether it is declared, set before the start or set while playing, by its name or by an alias; properties with a default (background, left, top, width, height, transparency, visible, zIndex, zOrder, duration) return to it when set to the empty string. A media without a specific player lasts for its duration.",
 ["inputs"], "all types x extensions of the tables and non-members, all properties x aliases x values/empty",
 "One test checks mime types through network sources.",
 ["lib/Player.cpp", "lib/Media.cpp"],
 [("mime table", "Player::createPlayer/getMimeForURI"), ("property table", "Player::getPlayerProperty/setProperty")],
 ["Media type property", "player behaviour"])

prop("C29", "Media bound to other devices follow the presentation",
 "Registering a device (a complete registration with an HTTP location) assigns it exactly the media bound to its type or to its supported formats, and the answer announces them; incomplete or malformed registrations, and registrations while no document plays, are answered 'not found' and change nothing. From then on each start, pause, resume and stop of such a media, and each start and stop of its labelled anchors, sends the device exactly one request, in order, naming the media or anchor and the action, and starts carry the declared position, z-index and transparency; media that no device was assigned send nothing, and neither answers nor failures of devices disturb the playback. What is sent when the presentation ends is not stated.",
 ["inputs", "histories"], "all registrations (classes, types, formats, locations, paths, bodies) x media bindings, and all operation sequences to a depth on assigned and unassigned media, in documents with linked local media",
 "No test registers a device.",
 ["lib/PlayerRemote.cpp", "lib/WebServices.cpp", "lib/Document.cpp", "lib/Media.cpp"],
 [("registration", "WebServices cb_remoteplayer, Document::getMediasRemote"), ("playback requests", "PlayerRemote")],
 ["answers", "requests sent to the device", "states of all objects"])

prop("C30", "Audio, video and generated sound follow the presentation",
 "Whatever the history of starts, pauses, resumes, stops, aborts, restarts and natural ends, of the media or of the contexts around it, the GStreamer pipeline behind an audio, video or generated-sound media plays exactly while the media is occurring, is paused exactly while it is paused, and is stopped once it sleeps or is destroyed. It plays the media's source with the volume and mute (audio, video) or volume, frequency and waveform (generated sound) last given, as numbers or percentages, declared, set before the start or set while playing (by default full volume, not muted, 440 Hz, sine). A media ends at the first tick, while playing, after the end of its content was reported (unless its freeze property is true) or after its duration; a generator whose pipeline cannot play ends at the next tick. Positions (time: absolute, or relative with a sign; the begin of the anchor the media is started at) and speeds given to an audio or video media move its content exactly there, once, as soon as the content is ready, and each new frame of a video replaces the one drawn in the media's rectangle.",
 ["inputs", "histories"], "all sequences of requests, ticks, property changes, content ends and readiness messages to a depth, for each kind of media; all values x ways of setting them; all sequences of frames and redraws",
 "No test observes a pipeline.",
 ["lib/PlayerVideo.cpp", "lib/PlayerSigGen.cpp", "lib/Media.cpp"],
 [("video and audio", "PlayerVideo"), ("generated sound", "PlayerSigGen"), ("life-cycle of players", "Media")],
 ["states of the pipelines", "properties of the sound source", "seeks", "pictures"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
