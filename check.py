#!/usr/bin/env python3
"""check.py PROPERTY --tier quick|thorough : decide one property on /repo's current tree."""
import argparse, importlib, json, os, random, shutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core

MODULES = {"C01": "fft", "C02": "fft", "C03": "fft", "C04": "fft", "C05": "fft", "C06": "fft", "C07": "fft", "C08": "fft",
           "C09": "stft", "C10": "stft", "C11": "stft", "C12": "dsp", "C13": "dsp", "C14": "song", "C15": "fft",
           "C16": "dsp", "C17": "dsp", "C18": "dsp", "C19": "xtask", "C20": "dsp", "C21": "dsp", "C22": "fft", "C23": "audio",
           "C24": "report", "C25": "web"}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(core.RUN, exist_ok=True)
    os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
    t0 = time.time()
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": [], "wall_s": 0, "violations": 0}
    path = os.path.join(core.ROOT, "evidence", a.prop + ".json")
    rc = 0
    try:
        m = importlib.import_module("vlib." + MODULES[a.prop])
        for line in core.known(a.prop):
            print(f"KNOWN-FINDING: property={a.prop} {line}", flush=True)
        ctx, memo = None, {}
        for r in range(int(os.environ.get("VERIF_ROUNDS", "3" if a.tier == "quick" else "1"))):
            # later rounds drive the code with further random inputs and histories; design models are checked once
            if r and time.time() - t0 > 300:
                break
            nxt = core.Ctx(a.prop, a.tier, random.Random(f"{a.prop}-{seed}" + (f"-{r}" if r else "")), cov, memo, r)
            ctx = ctx or nxt
            getattr(m, a.prop)(nxt)
        ctx.finish()
        ev["assumptions"] = ctx.assumptions
        cov["rounds"] = r + 1
    except core.Violation as v:
        print(f"{v.what}")
        print(f"VIOLATION property={a.prop} replay={v.replay}", flush=True)
        ev["violations"] = 1
        rc = 1
    except core.ToolError as e:
        print(f"TOOL-ERROR {e}", file=sys.stderr)
        rc = 2
    ev["wall_s"] = round(time.time() - t0, 1)
    if not ev["assumptions"]:
        ev["assumptions"] = ["see DESIGN.md"]
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{a.prop} {a.tier} rc={rc} {ev['wall_s']}s states={cov['states']} events={cov.get('events', 0)}", flush=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
