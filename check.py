#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property on /repo's current tree.  Exit 0: held on everything
explored.  Exit 1 with a VIOLATION line: the real code broke it.  Anything
else is an error of the check."""
import hashlib, json, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from props import PROPS


class Ctx:
    """What a property's recipe uses; collects evidence on the way."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.work = lib.Work(prop)
        self.models, self.runs, self.samples = [], [], []
        self.known = set()
        self.rejection = None
        self._bin = {}

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def harness(self, race=False):
        if race not in self._bin:
            self._bin[race] = self.work.build_harness(race)
        return self._bin[race]

    def overlay(self, pkg, files, race=False):
        key = (pkg, race)
        if key not in self._bin:
            self._bin[key] = self.work.build_overlay_test(pkg, files, race)
        return self._bin[key]

    def model(self, module, cfg, **kw):
        m = lib.model_check(self.work, module, cfg, **kw)
        self.models.append(m)
        return m

    def gen(self, module, cfg, **kw):
        """Explores a model and returns the file of histories it generated."""
        path = self.work.path("gen-" + cfg)
        self.model(module, cfg, gen=path, **kw)
        return path

    def trace(self, driver, module, n=0, gen=None, genmax=0, shards=4, binary=None, extra=(), env=None, seed=None,
              timeout=600, need=(), tenv=None, race=False):
        """Drives the real code and judges what it did; with race, a last event tells
        what data races the code under test had."""
        if self.rejection:
            return
        if race:
            binary, log = self.harness(True), self.work.path("race-" + driver)
            env = dict(env or os.environ, GORACE="exitcode=0 log_path=" + log, VERIF_RACELOG=log)
            need = tuple(need) + ("race",)
        try:
            info = lib.drive(self.work, binary or self.harness(), driver, seed or self.seed, n=n, gen=gen, genmax=genmax,
                             thorough=self.thorough, shards=shards, extra=extra, env=env, timeout=timeout)
        except lib.Crash as e:  # no specification has that as a step
            self.rejection = lib.Rejection(module, [json.dumps(dict(ev="crash", bad=e.what))], [], "Trace.cfg")
            self.rejection.driver = driver
            return
        self.judge(info, module, need, tenv)

    def judge(self, info, module, need=(), tenv=None):
        kf = {"KF_" + k["id"]: "1" for k in known_findings() if k["property"] == self.prop}
        kf.update(tenv or {})
        stats, rej = lib.validate(self.work, module, info["files"], env=kf)
        self.known |= stats["known"]
        if rej:
            rej.driver = info["driver"]
            self.rejection = rej
            return
        for k in need:
            if not info["kinds"].get(k):
                raise lib.Infra("driver %s produced no %r events: %s" % (info["driver"], k, info["kinds"]))
        self.runs.append(dict(driver=info["driver"], spec=module, episodes=info["episodes"],
                              events=info["events"], kinds=info["kinds"],
                              states=stats["distinct"], transitions=stats["generated"]))
        self.samples += lib.sample_episodes(info["files"])


def known_findings():
    path = os.path.join(lib.VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path))["findings"]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    p = PROPS[prop]
    ctx = Ctx(prop, tier, seed)
    code = 0
    try:
        p["run"](ctx)
        if ctx.rejection:
            code = 1
        report(ctx, p, t0)
    except lib.Infra as e:
        print("ERROR: %s" % e, file=sys.stderr)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            ctx.work.close()
    sys.exit(code)


def report(ctx, p, t0):
    rej = ctx.rejection
    ev = dict(
        property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level="model_checking",
        coverage=dict(
            states=sum(m["states"] for m in ctx.models) + sum(r["states"] for r in ctx.runs),
            transitions=sum(m["transitions"] for m in ctx.models) + sum(r["transitions"] for r in ctx.runs),
            traces_validated_against_impl=sum(r["episodes"] for r in ctx.runs),
            samples=ctx.samples[:4] if ctx.samples else ["(none: rejected)"],
            models=ctx.models, runs=ctx.runs,
            exhaustive=False,
        ),
        assumptions=p["assumptions"],
        wall_s=round(time.time() - t0, 2),
        violations=1 if rej else 0,
    )
    os.makedirs(os.path.join(lib.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(lib.VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    by_id = {k["id"]: k for k in known_findings()}
    for k in sorted(ctx.known):
        print("KNOWN-FINDING: property=%s %s: %s" % (ctx.prop, k, by_id.get(k, {}).get("what", "")))
    if rej:
        d = os.path.join(lib.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1("\n".join(rej.lines).encode()).hexdigest()[:10]
        path = os.path.join(d, "%s-%s.ndjson" % (ctx.prop, h))
        with open(path, "w") as f:
            f.write("\n".join(rej.lines) + "\n")
        print("The last event of this recorded execution is not a step of spec/%s.tla (driver %s, seed %d):" % (
            rej.module, rej.driver, ctx.seed))
        for line in rej.lines[-3:]:
            print("  " + lib.trim(line, 600))
        print("Judge it again with: python3 %s/replay.py %s %s" % (lib.VERIF, rej.module, path))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
    else:
        print("%s: ok, %d model states, %d executions of the real code judged, %.1fs" % (
            ctx.prop, ev["coverage"]["states"], ev["coverage"]["traces_validated_against_impl"], ev["wall_s"]))


if __name__ == "__main__":
    main()
