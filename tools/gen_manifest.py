#!/usr/bin/env python3
"""Writes MANIFEST.json out of properties.jsonl and the notes below."""
import json, pathlib
here = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(here / "properties.jsonl")]
MON = "runtime monitoring: "
T = {
    "A01": "import/read-back monitor over random content, chunk sizes and branching factors, overflow checks on",
    "A02": "recorded push traces compared between different splittings of the same content, online rules for every push",
    "A03": "offline checker over the log of emitted blocks: addresses recomputed with an independent SHA-256, order and reachability",
    "A04": "emitted blocks compared byte for byte with an independent reference layout",
    "R01": "visit and walk traces compared with a reference depth-first trace",
    "R02": "ranged visit traces compared with the slice of the reference content, requested blocks checked against the range",
    "R03": "online trace checker of the announced links at every step of visits, walks and lookups",
    "R04": "fault injection into file trees; the error and the bytes before it compared with the injected fault",
    "W01": "walk traces compared with a reference event sequence",
    "W02": "walk traces over hostile link names; online rule on every reported path",
    "W03": "online trace checker of file segment framing",
    "D01": "resolve outcomes compared with a reference lookup in the independently decoded links",
    "D02": "lookup traces over shards of random shapes compared with a reference search",
    "D03": "fault injection into directory nodes; refusals compared in resolve, lookup and walk",
    "D04": "cross-checking monitor: names listed by walks against names resolved",
    "B01": "emitted directory blocks compared byte for byte with a reference tree, insertion orders permuted",
    "B02": "random operation histories against a reference model of the builder",
    "B03": "random histories of metadata and links; emitted blocks decoded independently and walked",
    "B04": "emitted sizes against the limit, at and around the exact boundary",
    "E01": "whole-image round trip monitor: import, build, walk, resolve against the image",
    "S01": "serialized symlinks compared with the canonical block, walked back",
    "C01": "node data compared with an independent decoder, pointer identity checked",
    "C02": "encode/decode round trips compared with an independent encoder and size oracle",
    "C03": "differential monitor against an independent protobuf decoder on well-formed, mutated and random blocks",
    "M01": "reported metadata compared with the recorded one in every interface",
    "X01": "hostile block workload under panic, overflow, signal, processor time and allocation monitors and the AddressSanitizer",
    "X02": "full step logs compared between isolated, repeated, cache-sharing and interleaved runs",
    "X03": "fault injection into link hashes; reports compared with the injected fault",
}
EXTRA = {}
T["X04"] = "step logs compared between single-threaded and multi-threaded runs of the same operations under random schedules; ThreadSanitizer in the thorough tier"
T["D05"] = "lookups over arbitrary graphs of shard blocks followed step by step by a reference model"
T["X06"] = "one known defect per case; kind, values, text and source of every error compared with it"
T["X07"] = "panic, signal, stack and processor time monitors on writing operations with strange arguments, displayed and given up at random steps"
T["X08"] = "instructions counted by valgrind (cachegrind, switched on by the monitor around the calls) for one shape in five doubling sizes, growth compared"
T["X05"] = "counting allocator read after every step of very long operations, compared with the announced pending links"
try:
    from manifest_extra import T as T2, EXTRA
    T.update(T2)
except ImportError:
    pass
note = ("Exploration: the property held on every generated execution (counts in the evidence file). Cases are a pure "
        "function of VERIF_SEED; the oracle (own protobuf codec, SHA-256, reference models) shares no code with the crate. "
        "Thorough adds the release and AddressSanitizer builds, 200 times the cases or seven minutes.")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"bash check.sh {p['id']} quick",
            "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": MON + T[p["id"]],
            "level": "exploration",
            "level_note": EXTRA.get(p["id"], note),
        }
        for p in props
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed at the public interface. Repairs of genuine defects are listed in known-findings.txt.",
}
(here / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
