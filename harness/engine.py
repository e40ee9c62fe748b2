"""What every check shares: tiers, scratch, models run next to the code, verdicts, evidence, replays."""
from __future__ import annotations
import hashlib, json, os, shutil, sys, tempfile, threading, time
from datetime import datetime
from pathlib import Path

import judge

VERIF = Path(__file__).resolve().parent.parent


def enc(x):
    if isinstance(x, datetime):
        return {"__dt__": x.isoformat()}
    if isinstance(x, (set, frozenset)):
        return sorted(x)
    return str(x)


def dec(d):
    return datetime.fromisoformat(d["__dt__"]) if "__dt__" in d else d


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        base = os.environ.get("VERIF_SCRATCH_BASE") or tempfile.gettempdir()
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir=base)
        self.t0 = time.time()
        self.states = self.trans = self.traces = 0
        self.models = []
        self.info = {}
        self.samples = []
        self.violations = []   # {"clauses", "replay": dict, "what": str}
        self.known = {}        # finding id -> number of occurrences
        self.threads = []
        self.errs = []

    # models of the specification run beside the code
    def model(self, *mods, workers=3):
        def go():
            try:
                for m, c in mods:
                    t = time.time()
                    d, g, _ = judge.model(m, c, os.path.join(self.scratch, "mc"), workers=workers)
                    self.states += d
                    self.trans += g
                    self.models.append({"module": m, "config": c, "distinct_states": d, "states_generated": g,
                                        "seconds": round(time.time() - t, 1)})
            except Exception as e:
                self.errs.append(e)

        t = threading.Thread(target=go)
        t.start()
        self.threads.append(t)

    def emitted(self, module, cfg, args=(), workers=4):
        out, d, g = judge.emitted(module, cfg, os.path.join(self.scratch, "emit"), args=args, workers=workers)
        self.states += d
        self.trans += g
        self.models.append({"module": module, "config": cfg, "exported": len(out), "distinct_states": d})
        return out

    def join(self):
        for t in self.threads:
            t.join()
        if self.errs:
            raise self.errs[0]

    def count(self, **kw):
        for k, v in kw.items():
            self.info[k] = self.info.get(k, 0) + v

    def violation(self, clauses, what, replay):
        self.violations.append({"clauses": clauses, "what": what, "replay": replay})

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def findings():
    return json.loads((VERIF / "known_findings.json").read_text())


def finish(ctx: Ctx, assumptions=()) -> int:
    ctx.join()
    listed = {f["id"]: f for f in findings()["findings"] if f["property"] == ctx.prop}
    for k, n in list(ctx.known.items()):
        if k in listed:
            print(f"KNOWN-FINDING: property={ctx.prop} {k}: {listed[k]['what']} ({n} occurrences in this run)")
    seen, shown = set(), 0
    rdir = VERIF / "replays" / ctx.prop
    if ctx.violations:
        shutil.rmtree(rdir, ignore_errors=True)
        rdir.mkdir(parents=True, exist_ok=True)
    for v in ctx.violations:
        key = (v["what"].split(":")[0], tuple(sorted(v["clauses"])))
        if key in seen or shown >= 8:
            continue
        seen.add(key)
        shown += 1
        body = json.dumps({"property": ctx.prop, "seed": ctx.seed, **v}, default=enc, indent=1)
        fn = rdir / f"{shown}-{hashlib.sha1(body.encode()).hexdigest()[:8]}.json"
        fn.write_text(body)
        print(f"VIOLATION property={ctx.prop} replay={fn.relative_to(VERIF)}")
        print(f"   {v['what']}: {', '.join(v['clauses'])}")
    cov = {"states": ctx.states, "transitions": ctx.trans, "traces_validated_against_impl": ctx.traces,
           "samples": ctx.samples[:6], "models": ctx.models, **ctx.info}
    if ctx.known:
        cov["known_findings_seen"] = ctx.known
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking", "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations)}
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{ctx.prop}.json").write_text(json.dumps(ev, default=enc, indent=1))
    print(f"{ctx.prop} {ctx.tier}: {ctx.traces} executions of the code validated, {ctx.states} states, "
          f"{len(ctx.violations)} violations, {time.time() - ctx.t0:.1f} s")
    return 1 if ctx.violations else 0
