#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = "property-based testing: "
tech = {
 "C01": (T + "random and coverage-mutated documents and builder programs against a value model; small shapes enumerated", "Every reader compared with the model of what was pushed; trusts the generator and the decimal library's conversions."),
 "C02": (T + "random documents, bytes read by an independent strict decoder of the documented grammar", "Decoder written from the crate documentation accounts for every byte; number payloads decoded by the decimal library."),
 "C03": (T + "metamorphic: same pushes through other builders, vectors, capacities and poisoned memory give the same bytes", "Uninitialised reads show as differences between two allocator fill patterns."),
 "C04": (T + "random spellings of random values, parsed and compared with the value; reference JSON reader cross-checks the generator", "Three entry points compared byte for byte."),
 "C05": (T + "random number spellings against exact decimal arithmetic", "Domain limited where the decimal library is wrong (known findings)."),
 "C06": (T + "round trip and strict reference JSON reader over random documents; all characters enumerated", "Reference reader is independent of serde_json."),
 "C07": (T + "reference layout printer, recording and failing sinks with generated fault positions", "Fault position exhaustive over writes for small documents."),
 "C08": (T + "pairs and triples of documents with known equality; single-difference mutation", "Model equality is the oracle."),
 "C09": (T + "random key sets and probe keys against a sorted model; small subsets enumerated", "All keyed operations compared."),
 "C10": (T + "full matrix of type x position x requested type, random documents", "Matrix enumerated, contents random."),
 "C11": (T + "random paths derived from random documents against a reference evaluator; small paths enumerated", "Reference evaluator written from the documented semantics."),
 "C12": (T + "all small subscript lists x array lengths enumerated, random large ones, against set semantics", "Bounded-exhaustive for up to two cells over lengths 0..5."),
 "C13": (T + "differential between query modes and buffers, dirty buffers reused over random histories", "The wrapped query is the reference for the others, itself checked in C11."),
 "C14": (T + "grammar-based generation, mutation and all short texts, against an independent recogniser", "Accepted texts are also evaluated on a witness document."),
 "C15": (T + "stateful: random and enumerated sequences of builder calls against a model of open containers", "All sequences of up to four calls from a ten-call alphabet; random ones up to 100 levels."),
 "C16": (T + "boundary enumeration: lengths and counts around every limit x every route, read back in full or refused", "Uses real 256 MB strings and a 2 GB container in the optimised build."),
 "C17": (T + "round trips through serde_json and bincode of random documents; random texts as input", "serde_json and bincode stand for their classes of formats."),
 "C18": (T + "random walks by all accessors and queries; every extracted value copied elsewhere, decoded independently and compared", "Independent decoder and fresh builds are the oracles."),
 "C19": (T + "fault injection: every cut position of small documents, random cuts of large ones, placed against an inaccessible page", "Optimised build; all reads compared with the complete document's model."),
 "C20": (T + "random, mutated, deeply nested and all short texts against a reference JSON recogniser with the documented limits", "Reference recogniser is independent of serde_json."),
 "C21": (T + "fault injection: every allocation of a builder, conversion, path or query call made to fail in turn, then repeated or given up", "Allocator of the harness fails the n-th allocation; the oracle is the run without faults."),
 "C22": (T + "stateful histories, interleaved iterators and concurrent threads over shared documents and paths, every answer compared with a model that has no history", "Threads run under the operating system's schedules."),
 "C23": (T + "metered operations on large generated documents and path texts: executed comparisons and allocated bytes against bounds in the size of what is visited", "Counts are deterministic; bounds have a margin of about ten over the present code."),
 "C24": (T + "generated programs run in memory fenced by inaccessible pages and, as scripts, in an interpreter (Miri) that judges every access; both compared", "Random programs; the interpreter (without an aliasing model) sees some hundred per quick run, fenced memory some ten thousands."),
 "C25": (T + "generated and enumerated refusals: error values and texts compared with what the input and a reference recogniser say is wrong", "The longest prefix that some path begins with is found with the reference recogniser."),
}
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {"guard": "none", "enable": "no hooks are needed: the checks use the public interface only", "source_commits": []},
 "checks": [],
 "not_applicable": [],
 "notes": "check.sh builds the harness twice (optimised, and with debug assertions) against /repo's working tree and runs eight workers. Replay a reported case with: ./check.sh ID --replay FILE",
}
for p in props:
    i = p["id"]
    m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": tech[i][0], "level": "fault_enumeration" if i in ("C19", "C21") else "exploration", "level_note": tech[i][1]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
