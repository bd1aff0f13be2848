#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {
 "C01": "property-based testing: generated messages, cut reads and partial writes vs an independent frame codec",
 "C02": "stateful property-based testing: histories with injected corruption, differential against the same history without it (model)",
 "C03": "property-based testing: generated streams with damage and read boundaries vs a set-valued reference receiver",
 "C04": "property-based testing (attribute words exhaustively): headers vs an independent codec, both directions",
 "C05": "property-based testing: messages vs an independent codec, both directions, per version",
 "C06": "property-based testing: parameter lists and JSON vs an independent codec, both directions",
 "C07": "stateful property-based testing: generated fragmentation, order, repetition and interleaving vs a reassembly model",
 "C08": "stateful property-based testing: generated histories on the running server in virtual time vs a reference model of the platform",
 "C09": "stateful property-based testing: colliding registrations in generated histories vs a reference model",
 "C10": "property-based testing of schedules: concurrent registration batches vs the set of sequential outcomes; store hammer under the race detector",
 "C11": "stateful property-based testing: generated and derived wrong codes in histories vs a reference model",
 "C12": "stateful property-based testing: requests of unknown phones in generated histories vs a reference model",
 "C13": "stateful property-based testing: logout histories and logout races vs a reference model",
 "C14": "stateful property-based testing in virtual time: generated timings, invariant over the history",
 "C15": "stateful property-based testing in virtual time: generated silences, time-window invariant",
 "C16": "stateful property-based testing: generated reports vs an independent decoder and a list model; status words swept",
 "C17": "property-based testing: round trips and independent encoders (bytes and words exhaustively)",
 "C18": "structure-aware fuzzing of the running server (in process and as a real process) with well-behaved witnesses as oracle",
 "C19": "stateful property-based testing: connection histories with faults vs a session model, in process and against the real process",
 "C20": "property-based testing of schedules and histories: platform sends vs a delivery and serial-number model",
 "C21": "stateful property-based testing against a map model, plus concurrent histories under the race detector",
 "C22": "stateful property-based testing of the server process over TCP and HTTP vs a reference model",
 "C23": "stateful property-based testing of the server process: HTTP commands vs frames at every terminal",
 "C24": "stateful property-based testing of the client against a scripted platform model, and of both binaries together",
 "C25": "property-based testing: generated configuration files vs values read back and behaviour of the real process",
 "C26": "stateful property-based testing: histories with incomplete messages vs a model that never saw them",
 "C27": "model-based property-based testing of operation sequences vs a slice, and generated concurrent scripts under the race detector",
}
EXTRA = {
 "C10": " Schedules are those the Go scheduler produces over many batches; they are sampled, not enumerated.",
 "C20": " Schedules are sampled, not enumerated.",
 "C21": " Schedules are sampled, not enumerated; data races are reported only when executed.",
 "C22": " The server is the binary built from the tree, in a scratch directory, on loopback ports.",
 "C23": " The server is the binary built from the tree, in a scratch directory, on loopback ports.",
 "C25": " The server is the binary built from the tree, in a scratch directory, on loopback ports.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the one constructor the checks need is added at build time with go's -overlay (overlay/server_verif.go). Checks are rebuilt from /repo's working tree on every run."}
for p in props:
    i = p["id"]
    m["checks"].append({
        "property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "exploration",
        "level_note": "No violation in the generated cases counted in the evidence file (seeded by VERIF_SEED, failures shrunk to a replay file); not a proof. Trusts the reference codec/model in harness/, rapid and the Go toolchain." + EXTRA.get(i, "")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
