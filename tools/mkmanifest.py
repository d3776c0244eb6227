#!/usr/bin/env python3
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX = "explicit-state exploration: "
C = {
 "C01": ("model_checking", EX + "all operation histories up to a depth on the real stream/formatter, against a one-pass reference model", "Complete for histories up to the depth bound over the stated alphabet; the reference model is independent of the implementation's data structures."),
 "C02": ("model_checking", EX + "all operation histories, stored stream compared to a reference normal form", "Complete up to the depth bound."),
 "C03": ("model_checking", EX + "all pairs of histories and composition operators on the real code", "Complete for pairs up to the bound."),
 "C04": ("model_checking", EX + "all stream-building histories with nested references, walk compared to a reference multiset", "Complete up to the bound."),
 "C05": ("model_checking", EX + "all sequences and subsets of references from a pool x languages x file configurations, rendered names resolved by independent interpreters of each language's binding rules", "Complete over the pools up to the bound; ambient names that are never referenced are not modelled."),
 "C06": ("model_checking", EX + "all sequences and subsets of references, headers compared to reference headers computed from the set alone", "Complete over the pools up to the bound."),
 "C07": ("model_checking", EX + "all sequences and subsets of colliding references, resolved by independent interpreters of the Java and C# scoping rules", "Complete over the pools up to the bound."),
 "C08": ("model_checking", EX + "all body histories x languages x file and formatting configurations, files compared to the layout model", "Complete up to the depth bound."),
 "C09": ("model_checking", EX + "all texts over a tricky alphabet up to a length, all scalar values, all splits, read back by independent readers of ten languages", "Complete up to the bound; Rust, JavaScript, Python, Go, C and Java readers are cross-checked with the real compilers (thorough), the others are trusted."),
 "C10": ("model_checking", EX + "all sequences of literal pieces and interpolations, read back by independent readers", "Complete up to the bound; readers trusted as for C09."),
 "C11": ("model_checking", EX + "all pairs of outer and inner texts, read back twice by independent readers", "Complete up to the bound; readers trusted as for C09."),
 "C12": ("model_checking", EX + "all item sequences, callback trace compared to a grammar automaton", "Complete up to the bound; nesting of plain quotations and unterminated quotations are outside the claim."),
 "C13": ("model_checking", EX + "all histories x writers x configurations, differential against the reference rendering", "Complete up to the bound."),
 "C14": ("fault_enumeration", "exhaustive fault injection: every failure/short-write/interrupt point of every history", "Complete for one fault per execution at every position; short writes and interruptions in all patterns up to the bound."),
 "C15": ("model_checking", EX + "all templates up to a length over kinds of item x gaps x ways of writing them down, compiled with the macros under test and run, compared to an interpreter of the template over the layout model", "Complete up to the bound; comments inside of templates are not claimed."),
 "C16": ("model_checking", EX + "all sequences of row columns x kinds of row x kinds of body, each compiled: rejection (error located in the template) or balanced rendering, as the model says", "Complete up to the bound."),
 "C17": ("model_checking", EX + "all statements over a pool of bodies, separators, surroundings and nestings, compiled and run for every input, text and evaluation trace compared to an interpreter of the template", "Complete over the pools up to the bound."),
 "C18": ("model_checking", EX + "all templates of a pool x entry points x prior contents x continuations, compiled and run, compared to one interpreter", "Complete over the pools; quick takes a fifth of the combinations."),
 "C19": ("model_checking", EX + "all sequences of pieces of a template string x gaps, compiled and run in a tracing language, compared to the content they denote", "Complete up to the bound."),
 "C22": ("model_checking", EX + "all ordered pairs of tokens and all runs of punctuation x adjacency, compiled and run, compared to their source text", "Complete over the token pool; doc comments and lone sigils are not claimed."),
 "C20": ("model_checking", EX + "all values of the small integer types, boundary values of the wide ones, all texts over an alphabet, through every wrapper in every context, compared to the layout model", "Complete up to the bound; wide integers only around powers of 2 and 10 and the extremes."),
 "C21": ("model_checking", EX + "all lists of lines up to a length x helpers x indentation, compared to the layout model and to a comment stripper", "Complete up to the bound; lines with line breaks or the Java terminator are outside the claim."),
 "C24": ("model_checking", EX + "the template spaces of C15, C17, C19 compiled by a stable compiler and run, compared to the same interpreter with rows read as spaces", "Complete over the same spaces; with the one stable compiler installed here."),
 "C25": ("model_checking", EX + "all pairs of values up to a bound, compared to plain data", "Complete up to the bound; whether different sequences of modifiers with the same effect give equal imports is not claimed."),
 "C26": ("model_checking", EX + "all malformed pieces of a pool x places x macros, each compiled: rejection or (for the wellformed ones) acceptance, as the grammar says", "Complete over the pool; the wording of errors is not claimed."),
 "C27": ("model_checking", EX + "all names of a pool x kinds of things so called x templates using them in every part, compiled and run, compared to the text the same template has for any name", "Complete over the pool; names which start with an underscore, and what the prelude and the crates genco and std are called, are left to the macros."),
 "C28": ("model_checking", EX + "all renderings up to a bound x every point at which user code runs x other renderings, errors and panics there; all schedules of two real threads under a controlled scheduler up to a bound on preemptions", "Complete up to the bounds; scheduling points are the calls of user code (sinks, callbacks), so accesses of shared memory between two of them are not interleaved."),
 "C23": ("model_checking", EX + "all histories over imports of several kinds in two custom languages, text, walk and order compared to a plain model", "Complete up to the bound."),
}
exec(open(os.path.join(root, "tools", "checks_extra.py")).read()) if os.path.exists(os.path.join(root, "tools", "checks_extra.py")) else None
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./check.sh --setup", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in C:
        lv, tech, note = C[i]
        m["checks"].append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough", technique=tech, level=lv, level_note=note))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "not claimed: its check is not finished yet") if 'NA' in globals() else "not claimed: its check is not finished yet"))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1); open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
