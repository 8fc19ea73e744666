#!/usr/bin/env python3
"""Evidence for a property that is broken because documented uses of it do not compile."""
import json, os, sys
pid, what = sys.argv[1:3]
json.dump({"property": pid, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1")),
           "level": "model_checking",
           "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [what]},
           "wall_s": 0.0, "violations": 1}, open(f"/verif/evidence/{pid}.json", "w"))
