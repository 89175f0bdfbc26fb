#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SORT = {  # property -> (technique, what is trusted / left out)
 "C01": ("structured fuzzing with coverage feedback; invariant: no panic, abort, overflow, hang, or out-of-bounds read (guard pages), bounded allocation", "Crash freedom on generated bytes, extreme nesting and sizes; the allocation bound has slack (64 KiB + 256 B per input byte), so only growth beyond that is seen."),
 "C02": ("metamorphic property-based testing: guard pages, other surroundings, repetition, other mails in between", "UTF-8 validity is checked on every string handed out; placement by copying to guarded pages."),
 "C03": ("property-based testing against a line-structure reference model", "Trusts the line splitter of the model."),
 "C04": ("property-based testing against a body oracle", "Trusts the model's body rules (998 characters, US-ASCII)."),
 "C05": ("property-based testing over header multisets against a counting model", "Trusts the counting model; which of several errors is reported first is left open."),
 "C06": ("metamorphic property-based testing: case changes, permutations, near-miss names", "Relations between two parses; no model of values needed."),
 "C07": ("generation from the address grammar, constructed value as oracle; edited values against a reference parser", "Trusts the RFC 5322 reference parser for edited values."),
 "C08": ("metamorphic property-based testing: CFWS inserted, removed, replaced at grammar positions", "The insertion points are the ones the statement lists."),
 "C09": ("generation of quoted strings, constructed content as oracle; reference parser for spoiled ones", "Trusts the reference parser for spoiled strings."),
 "C10": ("generation of identifiers, constructed parts as oracle; reference parser for edited ones", "Trusts the reference parser for edited identifiers."),
 "C11": ("generation of dates in and out of range, constructed fields as oracle", "Every range bound is sampled on both sides."),
 "C12": ("generation of free text, constructed text as oracle", "Trusts the fold rule of the model."),
 "C13": ("generation of trace blocks, constructed blocks as oracle; reference parser for edited ones", "Token splitting of Received lines is the reference parser's."),
 "C14": ("generation of encoded words, constructed text as oracle (tables from an independent implementation)", "Charset tables come from Python's codecs; malformed words against the model."),
 "C15": ("round-trip and differential property-based testing against an independent base64 decoder", "Private decoder reached by a hook, and through messages and parts."),
 "C16": ("round-trip and differential property-based testing against an independent quoted-printable decoder", "Private decoder reached by a hook, and through messages and parts."),
 "C17": ("generation of Content-Type values, constructed value as oracle; reference parser for edited ones", "Trusts the reference parser for edited values."),
 "C18": ("generation of RFC 2231 segments, constructed value as oracle; reference model for gaps and edits", "Charset tables come from Python's codecs."),
 "C19": ("generation of Content-Disposition values, constructed value as oracle; reference parser for edited ones", "Dates with comments or escapes inside the quotes are left open."),
 "C20": ("generation of multipart trees, constructed tree as oracle; reference splitter for edited ones", "Boundary lines with trailing white space and delimiters sharing a line break are left open."),
 "C21": ("generation of charset bytes, mapping tables as oracle, all byte values", "Charset tables come from Python's codecs."),
 "C22": ("generation of entities, constructed payload and headers as oracle", "Malformed and duplicate part headers are left open."),
 "C23": ("differential property-based testing over feature sets against one model restricted to the set; builds of many sets", "Sets: singles, pairs, all-minus-one, random ones; values in fixed and random sets."),
 "C24": ("round-trip property-based testing of the encoders with an independent decoder and format checker", "Encoders reached by a hook."),
 "C25": ("metamorphic property-based testing: borrowed, owned, cloned, source buffer overwritten and freed", "Equality of every public field."),
 "C26": ("metamorphic property-based testing: malformed header against an arbitrary unknown one in its place", "Whether a value is malformed is the reference parser's verdict."),
 "C27": ("generation of phrase lists, constructed lists as oracle; reference parser for edited ones", "Trusts the reference parser for edited values."),
 "C28": ("pointer-identity invariant over generated mail", "Which values are contiguous is the reference parser's verdict."),
 "C29": ("fixed-point (re-serialise and re-parse) property-based testing on valid, edited and mutated mail", "Trusts the canonical writer; items it cannot write are counted and left out."),
 "C30": ("growth fuzzing: repeated units and hostile inputs, cost counted by compiler instrumentation, bounded per byte and against the cost of a smaller repetition", "The bound has slack (1000 comparisons per byte, where the worst known input needs 250; CPU time for megabyte payloads), so a slowdown within it is not seen."),
 "C31": ("metamorphic property-based testing: messages cut between headers and put together", "Relations between parses; no model needed. Cuts inside a trace block are left out."),
 "C32": ("differential property-based testing of the two entry points", "Trusts the collecting function of the model; payload decoding by the hooked decoders themselves (C15, C16 decide those)."),
 "C33": ("metamorphic property-based testing: one header list as message, part, nested part, owned part", "Relations between parses; duplicate headers in a part are left open."),
 "C34": ("metamorphic property-based testing: one value under every header that shares its grammar", "Relations between parses; no model needed. Encoded words with an \"@\" in phrases and disposition dates with comments are left out."),
 "C35": ("schedule-driven concurrency testing: threads switched at drawn points inside the library, sequential results as oracle", "Threads change places at comparisons the compiler instruments; one thread runs at a time, so weak-memory effects are not explored."),
 "C36": ("invariant over histories: bytes still allocated after parse, decode, clone, into_owned and drop", "Allocations through the global allocator; growth has to go on with further inputs, so one-time set-up is allowed."),
}
tail = " Level: search over generated inputs, not a proof; counts and samples in the evidence file."
m = {
 "version": 1,
 "setup_cmd": "./check build",
 "hooks": {
  "guard": "--cfg email_parser_verif",
  "enable": "harness/rustc-wrapper.sh, set as RUSTC_WRAPPER by ./check, adds --cfg email_parser_verif (and coverage instrumentation) when the crate email_parser is compiled",
  "source_commits": ["84245420bbf21a8ac27010a4be550d0d43ddc7cb"],
 },
 "checks": [
  {"property": p, "quick_cmd": f"VERIF_TIER=quick ./check run {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check run {p}", "evidence_file": f"evidence/{p}.json",
   "technique": t, "level": "exploration", "level_note": n + tail}
  for p, (t, n) in SORT.items()
 ],
 "not_applicable": [],
 "notes": "Driver: ./check run ID | ./check replay FILE. Known findings and repaired defects: KNOWN_FINDINGS.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
