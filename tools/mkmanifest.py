#!/usr/bin/env python3
# Writes MANIFEST.json from the table below.
import json, os
os.chdir(os.path.join(os.path.dirname(__file__), '..'))
MC = "model_checking"; EX = "exploration"
G = ("explicit-state model checking: a reference model of the playback semantics is explored and every model transition is "
     "replayed on the real Formatter/Document code, comparing all observables after each step; plus exhaustive operation sequences over enumerated documents")
D = "exhaustive enumeration of documents and operation sequences to a depth, run on the real code against a reference model after every step"
NB = ("Holds for every operation sequence and document in the enumerated bounded space on the real library code. Trusted: the reference model, "
      "the player stub environment (media without URI, no GStreamer/cairo devices), bounds in DESIGN.md.")
T = [
 ("C01", "h_core", MC, G, NB), ("C02", "h_core", MC, G, NB), ("C03", "h_core", MC, D, NB), ("C04", "h_core", MC, D, NB),
 ("C05", "h_core", MC, D, NB), ("C06", "h_core", MC, D, NB), ("C07", "h_pred", MC, "exhaustive enumeration of formulas x property states, evaluated by the real code (API, switch rules, link assessments) against an independent evaluator", NB),
 ("C08", "h_core", MC, G, NB), ("C09", "h_core", MC, G, NB),
 ("C10", "h_core", MC, G, NB), ("C11", "h_core", MC, G, NB), ("C12", "h_api", MC, "all API call sequences to a depth on a real player against a lifecycle/option automaton and the reference model", NB),
 ("C21", "h_core", MC, D, NB),
 ("C13", "h_parse", MC, "exhaustive enumeration of all single structural edits, reference/value substitutions and byte-level damages of feature-covering documents; each is parsed and, if accepted, played to its end on the real code", NB),
 ("C14", "h_parse", MC, "exhaustive enumeration of all single (and selected pairs of) edits of feature-covering documents: parser verdict and reported line against an independent executable specification of the grammar", NB),
 ("C16", "h_parse", MC, "exhaustive enumeration of the ways to spread a document's bases over imported files (bases x nesting x reference and path styles, and imports to refuse), each compared with the document written inline: verdict, structure and behaviour of the real code", NB),
 ("C17", "h_parse", MC, "exhaustive enumeration of presentations written in both syntaxes (shapes, links, predicates, switches): structure and played behaviour of both compared on the real code; and of all single-part damages of a table", NB),
 ("C22", "h_lit", MC, "exhaustive enumeration of all strings up to a length over the readers' alphabets and structured numeric grids, on the real readers against an independent grammar", NB),
 ("C23", "h_lit", MC, "exhaustive enumeration of all strings and string pairs up to a length over a path alphabet, on the real helpers against a component-wise definition", NB),
 ("C26", "h_parse", MC, "all sequences of construction calls up to a depth on real documents against a reference registry, and the consistency of every document the parser accepts in the enumerated grammar space", NB),
 ("C27", "h_doc", MC, "all sequences of user-data operations up to a depth on real documents against a reference map that counts clean-up calls", NB),
 ("C18", "h_play", MC, "exhaustive enumeration of position properties, regions, playback states, resizes and attribution sequences: each picture drawn by the real player against independently computed rectangles", NB),
 ("C19", "h_play", MC, "exhaustive enumeration of drawing properties and playback states of overlapping media and of sequences of changes: each picture drawn by the real player against an independent composition", NB),
 ("C20", "h_play", MC, "all tick partitions, redraw schedules and pause points of every animation of the alphabet, and all interleavings of attributions, ticks, redraws, pauses, resizes and restarts to a depth, on the real player against linear interpolation at the elapsed playing time", NB),
 ("C28", "h_play", MC, "exhaustive enumeration of types x extensions on the real player factory, and of property values x ways and moments of setting them: pictures and life-times of the real player compared with those of the declared value", NB),
 ("C30", "h_av", MC, "exhaustive enumeration of operation sequences, values and frame sequences on the real players over real GStreamer elements whose state changes, seeks and frames the harness answers: state, source, sound properties and position of every pipeline, and pictures, after every step against a model", NB),
 ("C24", "h_ws", MC, "exhaustive enumeration of requests (paths x bodies x targets x actions) in every playback state, and of request/operation/service-life-cycle sequences to a depth, sent over socket pairs to the real server: answer and states of all objects against the reference model", NB),
 ("C29", "h_ws", MC, "exhaustive enumeration of device registrations x media bindings, and of playback sequences to a depth on media assigned to devices, on the real server and players: answers, requests sent to devices and states of all objects against the reference model", NB),
 ("C25", "mem", MC, "all documents and operation sequences of the enumerated spaces of the other checks, at smaller depths, run under AddressSanitizer, repeated with fresh memory filled with different bytes (observations must agree) and with the allocated bytes compared after each repetition", NB),
 ("C15", "h_parse", MC, "exhaustive enumeration of connectors x binds x parameters: the parsed structure against an independent denotation of links, ports, switches and descriptors", NB),
]
exec(open('tools/manifest_more.py').read()) if os.path.exists('tools/manifest_more.py') else None
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
claimed = {t[0] for t in T}
NA = globals().get('NA', {})
m = {"version": 1, "setup_cmd": "mkdir -p build evidence replays",
 "checks": [{"property": p, "quick_cmd": f"./check.sh {h} {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {h} {p}",
   "technique": t, "level": l, "level_note": n} for p, h, l, t, n in sorted(T)],
 "not_applicable": [{"property": i, "reason": NA.get(i, "check under construction")} for i in ids if i not in claimed],
 "notes": "No hooks: harnesses link /repo's library sources directly (shim/ supplies headers of absent third-party libraries) and observe Event::transition with the linker's --wrap."}
json.dump(m, open('MANIFEST.json', 'w'), indent=1); print(len(T), 'checks')
