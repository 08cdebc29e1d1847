#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
TECH = "static analysis: path-sensitive abstract interpretation over go/ssa with typestate monitors"
CLAIMED = {
 "C01": "Every path of the Match* entry points, the reader and the writer: the slot read is the slot written, the stored text is escape(format(values)) framed by header and terminator, the reader returns exactly that body, equal texts pass silently without a write.",
 "C02": "Every path of the Match* entry points and of the diff engine (a report is empty only for equal texts, matches join equal lines, hunks hold every change): the comparison is between the entry read and the value's text, a non-empty difference leads to exactly one error and no write unless updating; escaping conflates only the recorded known finding.",
 "C03": "Registry ordinals, slot formatting, cleanup and read/append/update effects on every path: one ordinal per call, reset per execution, only the addressed entry changes.",
 "C04": "Every path of updateSnapshot and the entry points: the rewritten bytes equal the file with the addressed body replaced, the file is truncated and rewound, a matching value writes nothing.",
 "C05": "Every file effect of Match* and Clean is reached only under the conditions of the mode table, evaluated symbolically over CI, Update option and UPDATE_SNAPS; how the mode variables are initialised (INIT); no other function has a file effect (frame condition of every rule).",
 "C06": "Lockset and atomicity: every access to a snapshot file and to the shared registries, counters and lists happens under one common mutex; read-modify-write of a file stays inside one critical section.",
 "C07": "Clean's live set is built from the highest ordinals the registries ever handed out; live entries and files are never reported or removed on any path.",
 "C08": "testSkipped, matchesRun, splitRun, isFileSkipped and hasSkippedTests are checked symbolically against the selection rules; protected items are neither listed nor removed on any path.",
 "C09": "examineFiles and examineSnaps: an item is reported iff stale and unprotected, exactly the reported items are removed and only when updating; everything else is copied.",
 "C10": "examineSnaps: the rewritten file equals the surviving entries with their bodies, in natural order when sorted; files needing neither are not written.",
 "C11": "snapshotPath, baseCaller, the trimmed-build test and the standalone registry are evaluated symbolically: the path is dir/name.snap+ext from the options, the stack walk is an inductive monitor over the frames, no path depends on the working directory; how a trimmed build is recognised is checked (TRIM).",
 "C12": "No path of any Match* call stores into the Config or anything reachable from it; WithConfig hands out a fresh copy, every option writes its own field only, the location uses the call's options.",
 "C13": "prettyDiff, the unified and inline reports, splitNewlines and the edit script (getOpCodes, GetGroupedOpCodes, getMatchingBlocks, findLongestMatch): counts, signs and lines shown equal the edit script's; the script tiles both texts and marks as equal only what the matcher found (rules DIFF, INLINE, SPLIT, OPCODES, BLOCKS, LONGEST, INDEX, GROUPS); every index stays in range.",
 "C14": "Every path of the JSON entry points: the text stored is pretty(validated document) with the options of the Config (default: sorted keys, indent one space), invalid input leads to one error and no write. gjson.Valid, json.Marshal and pretty are taken at their documentation.",
 "C15": "Every matcher, built through the public constructors and setters, is run symbolically over lists of up to three paths: exactly the value at each path is replaced, in order, in the document handed on; the caller's bytes are never written; the YAML helpers are run over stream shapes with per-document outcomes.",
 "C16": "Same runs: what is put at a matched path depends on the placeholder (or the type, or the callback's result) only; the entry points compare the whole remaining document.",
 "C17": "Same runs: a missing path (unless allowed), a wrong type, a callback error each add one error with matcher, path and reason; the entry points then report one failure naming all of them, write nothing and keep the ordinal.",
 "C18": "Every path of MatchYAML: with string or bytes input and no matcher the text stored is escape(input) itself; Go values are marshalled with fixed options; invalid input leads to one error and no write.",
 "C19": "Every path of the standalone entry points: bytes written equal the formatted value, the k-th call maps to file k, compared as read.",
 "C20": "Every path of every entry point ends in exactly one outcome, signalled and counted once; the summary prints the counters; no function swallows a panic (PANIC).",
}
NA = {}
allp = [json.loads(l)["id"] for l in open("properties.jsonl")]
for p in allp:
    if p not in CLAIMED and p not in NA:
        NA[p] = "not claimed yet (work in progress)"
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": []}
for p in allp:
    if p in CLAIMED:
        note = CLAIMED[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                            "technique": TECH, "level": "other", "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": NA[p]})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
