#!/usr/bin/env python3
"""Writes MANIFEST.json from this table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = {
 "C03": ("online monitor: bounded enumeration of derivations of every accepted grammar", "Every accepted program seen had at most one derivation per word up to the enumerated length at every node; ambiguity only in longer words is not observed."),
 "C04": ("reference-model monitor over the inferred types at every node", "Types seen equal an independent least-fixed-point solution at every node and cover the enumerated words; trusts the model's typing rules."),
 "C05": ("reference-model monitor: verdict and reason against an independent typing", "Verdict and reason agree with an independently written checker on all programs seen, including every small core grammar; trusts that model."),
 "C06": ("reference-model monitor: expansion against an environment evaluator", "Expansions seen equal those of an evaluator without substitution; programs whose expansion is over 6000 steps are not judged."),
 "C07": ("reference-model monitor: name resolution against an independent resolver", "Resolutions seen equal an independent resolver's."),
 "C08": ("crash, panic, overflow and hang monitor over hostile inputs (overflow checks and debug assertions on)", "No panic, overflow, abort or hang on the inputs seen; expansion bounded by the model."),
 "C13": ("online monitor of every read, peek and position against a position model", "Interleavings and texts seen only."),
 "C14": ("reference-model monitor of the parsing helpers on recorded streams", "Contracts held on the helper calls seen."),
 "C15": ("differential monitor of the two front ends on the shared syntax", "The two front ends agreed on the texts seen, including all bundled programs."),
 "C16": ("differential monitor of literal decoding against rustc's lexer rules; panic monitor", "Literals and texts seen only."),
 "C17": ("metamorphic monitor: layouts, parentheses and reprinting against the grammar's own printer", "Groupings and layouts seen only; trusts an independent precedence printer and parser."),
 "C19": ("monitor of error spans against recorded source ranges", "Locations of the errors seen lie at the construct the model blames."),
 "C20": ("monitor of generated member names against a naming model", "Member names of the generated types seen agree with the model where it determines them."),
 "C26": ("monitor of error messages against the facts", "Messages of the errors seen state the model's facts."),
 "C01": ("offline checker: acceptance by compiled parsers against a reference recogniser", "Compiled parsers agreed with the recogniser on the programs and inputs seen."),
 "C02": ("offline checker: trees of compiled parsers against the derivation of a reference parser", "Trees seen show their text and are the derivation the reference found."),
 "C09": ("monitor: generated code compiled by rustc, plus an item-level checker of names and sizes", "Generated modules seen compile and define every item they use exactly once."),
 "C10": ("differential monitor of repeated compilations, processes and routes", "Output seen is the same in-process, across processes and by both routes."),
 "C11": ("offline checker: runtime errors against a longest-viable-prefix oracle", "Errors seen are those of the oracle."),
 "C12": ("instrumented stream: recorded reads and peeks judged offline", "Recorded operation logs respect the discipline."),
 "C18": ("process monitor: exit status and both streams against the library", "Processes seen kept the contract, including full and closed outputs."),
 "C21": ("offline checker: conversions of compiled parsers against the text", "Conversions seen return the parsed character."),
 "C25": ("differential monitor: shared against unshared compilations, run on inputs", "Shared and unshared parsers agreed on the programs and inputs seen."),
 "C27": ("monitor of rustc on macro invocations, accepted and rejected", "Invocations seen fail with the library's message at the macro input, or expand."),
 "C28": ("offline checker: equality, hash and clones of compiled trees against their texts", "Pairs of results seen."),
 "C22": ("reference-model monitor of three evaluators against exact integer arithmetic", "Evaluators agreed on the texts seen, including every short text over ten characters."),
 "C23": ("reference-model monitor of three parsers on documents generated with their meaning", "Parsers agreed on the documents seen."),
 "C29": ("reference-model monitor of three parsers on malformed texts against a strict RFC 8259 reader", "Parsers agreed with the reader on the texts seen, including every short text over several alphabets and every character at every place of some documents."),
 "C30": ("online checker: comparisons and hashes of core and typed expressions, names, positions and errors against their written-out form", "Pairs seen compare, order and hash as their written-out forms do."),
 "C31": ("online monitor: recording visitor, folder, mapper and backend against the public fields of the tree; errors and reused contexts likewise", "Calls, hand-overs, errors and reused contexts seen agree with the tree."),
 "C32": ("reference-model monitor of the errors of generated and hand-written parsers against where a strict reader stops", "Errors seen were at the place and of the kind the reader found, for every short text over several alphabets and every character at every place of some texts."),
 "C24": ("round-trip monitor of displayed values against a strict RFC 8259 reader", "Values seen display as documents denoting them."),
}
NA = {}
def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
    checks = []
    for i in ids:
        if i in C:
            t, n = C[i]
            checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "bin/check %s --thorough" % i,
                           "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": n})
    na = [{"property": i, "reason": NA.get(i, "machinery under construction")} for i in ids if i not in C]
    m = {"version": 1, "setup_cmd": "bin/check --setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks: everything observed is reachable through public interfaces and generated code."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
