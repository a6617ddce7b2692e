#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
G = ("Every answer recorded from the real library (built from /repo, with sanitizers) to queries on primitives with small integer coordinates, and on those moved by similarities, equals the one decided exactly "
     "in the TLA+ specification. Sampled over a lattice, with the specification's own oracle checked exhaustively or by random subsets against its defining point sets; tangencies and single-point touches of coplanar operands are not judged.")
NOTE = {"C24": G, "C25": G, "C28": G}
T = "TLA+ specification checked by TLC; traces of the library recorded from model-generated and seeded histories are validated against it by TLC"
N = ("Every event recorded from the real library (built from /repo, with address and undefined-behaviour sanitizers) is a step the TLA+ specification admits, "
     "for the histories generated this run. Sampled, not exhaustive, over real numbers; assumes IEEE doubles and the tolerances written in spec/EnveTrace.tla, "
     "and does not judge cases within 1e-6 of a contact boundary.")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 tools/build.py",
         checks=[dict(property=p["id"], quick_cmd="python3 tools/check.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + p["id"],
                      technique=T, level="model_checking", level_note=NOTE.get(p["id"], N)) for p in props if p["id"] not in NA],
         hooks=dict(guard="none", enable="No hooks: the harness links the unmodified sources of /repo and observes through the public interface.", source_commits=[]),
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
