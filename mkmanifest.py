#!/usr/bin/env python3
"""writes MANIFEST.json from props.py"""
import json, os
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
T = ("symbolic execution of the whole-program LLVM IR of deku, the code its derive macros generate and the harness; "
     "z3 decides every branch and assertion over symbolic inputs; counterexamples are replayed natively")
checks = [dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --tier thorough",
               technique=T, level="model_checking", level_note=d["bounds"]) for p, d in PROPS.items()]
m = dict(version=1, setup_cmd="cargo build --release --offline --quiet --manifest-path engine/Cargo.toml",
         checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in NOT_APPLICABLE.items()],
         notes="See DESIGN.md. Every check rebuilds deku from /repo's working tree; see props.py for configurations and bounds.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
