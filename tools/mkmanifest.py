#!/usr/bin/env python3
"""Write MANIFEST.json from the list of properties and the levels below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = {
 "C01": ("exhaustive enumeration of builder programs, real builder and reader against a value model", "All programs of the enumerated families run on the real code with and without debug assertions; larger programs are not covered."),
 "C02": ("exhaustive enumeration of builder programs, byte-accounting verifier written from the format specification", "Every byte of every produced buffer is accounted for by an independent verifier; trusts that verifier."),
 "C03": ("exhaustive enumeration of conforming layouts produced by an independent encoder, read by the real code", "Every layout freedom is a choice point; values and graph sizes bounded."),
 "C04": ("exhaustive enumeration of byte deviations from seed buffers, real reader against a reference reader, guard pages", "One and two deviations of small seeds, all short buffers over an alphabet; assumes that larger buffers bring no new behaviour."),
 "C05": ("exhaustive enumeration of capacities, cut points, resets and clones of builder histories", "Histories cut at every call; six base programs and all small graphs."),
 "C06": ("exhaustive enumeration of layout sequences against the set-of-layouts model", "Sharing decided from the bytes of every buffer."),
 "C07": ("explicit-state protocol automaton, all call sequences to a depth on the real builder", "Depth-bounded; calls the rules leave open are not explored further."),
 "C08": ("exhaustive enumeration of iterator operation sequences against a deque model", "Depth-bounded sequences, skips up to usize::MAX."),
 "C09": ("exhaustive enumeration of finish modes, identifiers and queries", "All modes over small graphs."),
 "C10": ("exhaustive enumeration of schemas and of field values, generated code executed against a value model", "All pairs of field types, triples of a subset, wide and nested tables; every combination of boundary values and absence."),
 "C11": ("exhaustive enumeration of names in positions, collisions, namespace relations and shapes; real schema compiler, then rustc with probes of the documented names", "Every keyword and some 200 risky names in 20 positions; rustc is the oracle."),
 "C12": ("exhaustive enumeration of schemas and values, bytes of the generated writer judged by an independent decoder, bytes of an independent encoder read by the generated accessors", "As C10; the independent encoder and decoder are trusted."),
 "C13": ("exhaustive enumeration of types x default literals x written values, generated code against the model", "Boundary defaults of every scalar type in every notation and of enums."),
 "C14": ("exhaustive enumeration of pairs of schema versions and of values, both directions", "All extensions by one or two fields, values or alternatives of the enumerated tables."),
 "C15": ("exhaustive enumeration of enums, names and integers, generated code against the numbering model", "All patterns of explicit and implicit values up to four names; all 8- and 16-bit integers, neighbourhoods of declared values and limits otherwise."),
 "C16": ("exhaustive enumeration of unions, alternatives, neighbours and tags, generated code against the model", "All 256 tags; unions of one to several alternatives."),
 "C17": ("exhaustive enumeration of required subsets, values and absences, generated code against the model", "Every subset of fields required and every subset absent in small tables."),
 "C18": ("exhaustive enumeration of syntax trees, renderings and one- and two-token/character edits, real parser against an independent reference parser", "All spacings, comments, forms and small trees; the reference lexer and parser are trusted, what neither the documentation nor the tests settle is left open."),
 "C19": ("exhaustive enumeration of literals in every position, real parser against exact arithmetic", "All literals of the enumerated families, around every limit of every type."),
 "C20": ("exhaustive enumeration of token and character strings and of edits of valid schemas, real compiler, verdict and output checked", "All short strings, all one- and two-token edits of 14 schemas; no panic, no silent acceptance, output is Rust."),
 "C21": ("exhaustive enumeration of declaration sets, reference graphs, namespaces and orders, generated items against a reference resolver", "Up to four declarations in up to four namespaces, every order, every reference."),
 "C22": ("exhaustive enumeration of ill-formed and well-formed schema families against a reference checker", "All pairs and places of the listed errors; boundary values of every type."),
 "C23": ("exhaustive enumeration of service declarations, recorded calls of a service generator against a reference", "Up to three services and three methods with all streaming modes, names and documentation."),
 "C24": ("exhaustive enumeration of fault placements in input, output and formatter (fault injection at every I/O call)", "Up to three read events, three write events, a faulty formatter in sixteen ways."),
 "C25": ("enumeration of hash seeds covering every iteration order of small maps, compilation histories and threads", "400 seeds reach all 32 orders of maps with 2 to 4 keys; larger maps only by seeds."),
 "C27": ("exhaustive enumeration of inputs, outputs, options and faults of the real program and build-script function, against the library's own result", "Ten schemas in all combinations; a user crate with a build script is built and run."),
 "C28": ("exhaustive enumeration of call sequences, layouts and damaged buffers on the real code, executed by the Miri interpreter, which detects undefined behaviour", "About 10 500 executions, small bounds since interpretation is slow; C01 to C09 explore far more of the same natively; trusts Miri."),
 "C29": ("exhaustive enumeration of programs, layouts and damaged buffers on the real code, executed by the Miri interpreter as a big-endian and as a 32-bit host, compared execution by execution with the native host", "About 6 800 executions per emulated host; trusts Miri's emulation and, for the reference, the native checks."),
 "C26": ("exhaustive enumeration of documentation placements, generated items against the schema", "16 places, all pairs, 0 to 3 lines, both line ends, ordinary comments interleaved."),
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                       "technique": "model checking: " + T[i][0], "level": "model_checking", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check uses the public API of /repo's crates and the generated code."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
