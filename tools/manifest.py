#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"]: json.loads(l) for l in open(f"{ROOT}/properties.jsonl")}
NOTE = ("Held on the executions counted in the evidence file, for the seed given; no claim beyond them. "
        "Trusts the curve, hash, cipher and policy crates, the compiler and the monitor. ")
T = {
 "C01": ("online monitor: executable policy model as oracle over randomized key/encrypt/decrypt executions",
         "Random and boundary workloads (capacity, large and deep formulas, serialized objects). Also through the Python and WebAssembly modules and the C functions in turn."),
 "C03": ("attack monitor: forged and pooled keys run through the real decryption, linear relations of the shares evaluated by pairings",
         "A bounded family of linear attacks; hardness of the underlying problems is assumed, not observed."),
 "C04": ("online monitor: executable history model over randomized histories of rotations, keys, delegations and encryptions",
         "Every pair of key and cipher text of a history is compared with the model. Also through the Python and WebAssembly modules and the C functions in turn."),
 "C05": ("online monitor: executable policy model over chains of delegations, shares compared in the exponent",
         "Narrower policies outside the documented rewritings may be refused, never widened. Also through the Python module."),
 "C06": ("online monitor: round trips of every serializable type with comparison of bytes, equality and behaviour",
         "Objects made by the library itself; equality of cipher texts is that of their bytes."),
 "C02": ("online monitor: executable policy model as oracle over randomized refusals, maximal unsatisfying lists",
         "Random workloads biased to lists one attribute short. Also through the Python and WebAssembly modules and the C functions in turn."),
 "C07": ("crash, hang and allocation monitor: hostile bytes and mismatched objects through every entry point, watched by a counting allocator, guard limits and a supervisor",
         "Structure-aware corruption of valid objects, lying length fields, well-formed objects of different origins. Also through the Python and WebAssembly modules and the C functions in turn."),
 "C08": ("online monitor: forged invalid elements at every position of every object, independent validity test as oracle",
         "Every element position of sampled objects with each class of invalid element."),
 "C09": ("differential monitor: recorded corpus of the base version and an independent implementation of the scheme and wire format as oracles, in both directions",
         "The independent implementation shares the curve crate with the library."),
 "C10": ("online monitor: round trips of headers, metadata and blocks through the native and C functions",
         "Sizes up to the maximum, with and without metadata, with and without caches. Also through the Python and WebAssembly modules and the C functions in turn."),
 "C11": ("online monitor: every byte of small blocks and headers altered, parts swapped, refusal or harmlessness judged from the original",
         "Bit flips and structural tampering; cryptographic hardness is assumed. Also through the Python and WebAssembly modules and the C functions in turn."),
 "C12": ("offline checker over a log of every random component produced by threads, operations and processes: uniqueness and spread",
         "Series of 66 000 small operations, native, C, Python and WebAssembly functions. Statistical tests with thresholds of negligible false alarm; a biased generator below them goes unseen."),
 "C13": ("memory monitor: guard pages, read-only inputs and canaries around every C call, and AddressSanitizer on a second run",
         "All output capacities around the needed ones, null pointers, lying lengths."),
 "C14": ("linearizability checker over logs of concurrent histories of the C caches, and ThreadSanitizer on a second run",
         "Interleavings are those the scheduler gave, counted in the evidence."),
 "C15": ("online monitor: model of the per-thread pending error over sequential and concurrent histories of C calls",
         "Expected descriptions are those of the same failure made alone."),
 "C19": ("online monitor of every result of concurrent operations, progress monitor, and ThreadSanitizer on a second run",
         "Interleavings are those the scheduler gave, counted in the evidence."),
 "C16": ("differential monitor: the built Python module in a live interpreter, called in step with the native functions, which judge every result and exception",
         "Requests made of valid ones with one or two arguments spoiled; one thread per interpreter."),
 "C17": ("differential monitor: the built WebAssembly module in node, called in step with the native functions and a model of its caches, which judge every result and exception",
         "Requests made of valid ones with one or two arguments spoiled; nodejs binding of the module."),
 "C18": ("differential monitor: parser, span programs and elimination against independent ones, exhaustive over short texts and over the subsets of small formulas",
         "Texts of up to 7 or 8 characters, formulas of up to 60 leaves, matrices of up to 40 rows."),
 "C20": ("algebraic monitor: every component of generated and delegated keys and of cipher texts evaluated from the secrets by an independent implementation",
         "Capacities up to 600 (quick) or 2500 (thorough). Also through the Python and WebAssembly modules and the C functions in turn."),
 "C21": ("online monitor: announced sizes compared with the bytes written, parsed by an independent implementation",
         "Up to 600 attributes, blocks up to 1 MB (quick) or 16 MB (thorough). Also through the Python and WebAssembly modules and the C functions in turn."),
 "C22": ("online monitor: ill-formed requests derived from valid ones, refusal or exact meaning by the executable policy model as oracle",
         "The ill-formed requests are those of the families listed in the evidence. Also through the Python and WebAssembly modules and the C functions in turn."),
 "C23": ("differential monitor: the built shared library, its functions found by name, called in step with the native functions, which judge every result and refusal",
         "Requests made of valid ones with one or two arguments spoiled, or of other formulas and lists."),
 "C24": ("differential monitor: operations of the map on elements of known exponents compared with the laws of the groups",
         "Single operations are computed by the same curve crate; products of up to 300 pairings."),
 "C25": ("memory monitor: bytes allocated read between batches of repeated operations and of histories, in this process, a Python interpreter and a WebAssembly module",
         "Losses repeated at each batch; the linear memory of WebAssembly only shows those of more than a page."),
}
EXTRA = f"{ROOT}/tools/manifest_extra.py"
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())
checks = []
for i in sorted(T):
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": "exploration",
        "level_note": NOTE + T[i][1]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "check under construction")} for p in sorted(props) if p not in T]
     if (NA := globals().get("NA", {})) is not None else [],
     "notes": "No hook in /repo: every monitor observes the public API, the C, Python and WebAssembly modules, or bytes."}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
