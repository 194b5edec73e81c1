#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C01': "exhaustive over all payloads within the bounds, judged by an independently written expectation per line shape; trusts that line shapes outside the alphabet behave alike",
 'C02': "exhaustive over store contents x matcher lists within bounds against a linear-scan reference storage; includes real 64-bit label-hash collisions",
 'C03': "exhaustive over arrival orders and batchings within bounds against a reference time-sorted list",
 'C04': "every (expression, data) pair within bounds evaluated by the same engine over the real and a reference storage; every iterator operation sequence up to a depth; trusts the Prometheus engine",
 'C05': "exhaustive over load/clean histories within bounds against a reference storage",
 'C06': "exhaustive over update sequences within bounds against a reference index, with aliasing probes",
 'C07': "exhaustive over operation histories within bounds under a virtual clock against a sequential specification evaluated over a reference storage",
 'C08': "exhaustive over schedules within a preemption bound of the real code (package sync replaced through a build overlay), data races decided per schedule by the race detector's happens-before relation; scheduling points are lock/channel operations, goroutine starts, source and callback",
 'C09': "exhaustive over results within bounds; every output is decoded again and compared with the result",
 'C10': "exhaustive over combinations of targets, answers and flags within bounds: the real command over a fake network and a virtual clock, and over loopback servers through the command line parser; judged by an independent evaluation over a reference storage",
 'C11': "exhaustive over request histories within bounds; every answer is compared with the answer of a fresh process (small grammars: a new parser)",
 'C12': "exhaustive over texts and cursor positions within bounds; crash, hang and memory monitored per case; answers compared with those for the text before the cursor",
 'C13': "exhaustive over small grammars and token strings against a language-theoretic saturation oracle; PromQL: all viable token sequences to a depth against an independent stack automaton",
 'C14': "exhaustive over viable query prefixes to a depth times partial words, against expectations computed from an independent grammar and scope rules; label lists with several candidate metrics are only checked to name one metric's labels",
 'C15': "exhaustive over candidate sets and patterns within bounds against definitional predicates",
 'C16': "exhaustive over sequences of prompt output operations and resizes within bounds against an independently written reference terminal",
 'C17': "exhaustive over edit/resize/redraw histories within bounds; every cell of the screen outside the box must be untouched and the inside must equal the reference",
 'C18': "exhaustive over candidate tables, sizes and selections within bounds against a reference layout",
 'C19': "exhaustive over point sequences, series and canvases within bounds against exact scaling and nearest-cell lines; two known findings pinned by graph_test.go are accepted only in their exact form",
 'C20': "exhaustive over spans, ranges, sizes, densities and labelers within bounds; judged from the definition of ticks and axes",
 'C21': "exhaustive over key events (all keys, modifiers and runes of the alphabet) and chords within bounds against an independently written key table; and over interleavings within a preemption bound of typing, reading and resizing goroutines under the race detector",
 'C22': "exhaustive over event/resize/request schedules within bounds with a gated fake screen: every ordering of the events and requests at the loop's hook points; and over interleavings within a preemption bound of the loop with requesting, typing, resizing and cancelling goroutines under the race detector",
 'C23': "exhaustive over key/line/wait schedules within bounds with a gated fake screen running the real prompt; and over interleavings within a preemption bound of the prompt's loops with an event loop and a canceller under the race detector",
 'C24': "exhaustive over operation sequences and operand pairs within bounds for all six set types against bit-mask sets, with aliasing probes",
 'C26': "exhaustive over operation sequences within bounds of the whole command in continuous mode (the functions opening the terminal replaced through a build overlay) under a virtual clock; screens compared cell by cell with what the drawing widgets, themselves checked by C16-C20, draw for an independently kept model",
 'C27': "exhaustive over schedules within a bound on deviations (delay bounding) of the real event loop, prompt widget and go-prompt loops (package sync replaced through a build overlay, virtual time), races decided by the race detector on each schedule; scheduling points are lock operations, goroutine starts, cancellation checks and every call on the screen",
 'C28': "exhaustive over schedules within a bound on deviations, from two base orders, of the whole command in continuous mode (package sync and the functions opening the terminal replaced through a build overlay, fake network, virtual time) with a user acting around a round; races decided by the race detector on each schedule, screens compared cell by cell with what the drawing widgets draw for an independently kept model",
 'C29': "exhaustive over query prefixes, partial words and offered suggestions within bounds: the real completer in go-prompt's own key handling, and the whole command under a virtual clock with its screen compared; what should be offered at all is C14's matter",
 'C30': "exhaustive over sequences of editing operations within bounds; the widget in go-prompt's own loop is compared after every step with go-prompt on an independently written reference terminal fed through an independent key table; trusts go-prompt itself",
 'C31': "exhaustive over command lines within bounds (option spellings, repetitions, orders, mistakes) and kubeconfigs against a left-to-right model of their meaning; requests, both streams and exit status compared with a run of exactly the settings meant",
 'C25': "exhaustive over matrices within bounds against the definition",
}
TECH = {
 'C08': "stateless model checking: preemption-bounded exhaustive exploration of thread interleavings of the real code under a controlled scheduler, happens-before race detection and a history judge on every schedule",
 'C27': "stateless model checking: delay-bounded exhaustive exploration of thread interleavings of the real code under a controlled scheduler, happens-before race detection and a final-state judge on every schedule",
 'C28': "stateless model checking: delay-bounded exhaustive exploration of thread interleavings of the real command under a controlled scheduler, happens-before race detection and a final-state judge on every schedule",
 'C21': "explicit-state exploration of the real code (exhaustive bounded key sequences against a reference model) and stateless model checking of its thread interleavings within a preemption bound under a controlled scheduler with race detection",
 'default': "explicit-state exploration of the real code: exhaustive enumeration of bounded inputs/histories against a reference model (trace conformance on every execution)",
}
for p in ('C22', 'C23'):
    TECH[p] = TECH['C21'].replace('key sequences', 'event histories')
NA = {}
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
checks = []
for p in props:
    if p in NOTE:
        checks.append({"property": p, "quick_cmd": f"bash check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p}",
            "technique": TECH.get(p, TECH['default']), "level": "model_checking", "level_note": NOTE[p]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "check under construction, not claimed yet")} for p in props if p not in NOTE],
     "notes": "No hooks in /repo; the harness links /repo's working tree as a module (C08, C21-C23, C26-C29 through a build overlay). See DESIGN.md."}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
