"""Machinery shared by all checks: build the harness from /repo, run TLC on the
models, let TLC generate histories, drive the real code, and let TLC judge the
recorded traces."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

GOENV = dict(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GO111MODULE="on", GOSUMDB="off", GONOSUMDB="*", CGO_ENABLED="1")


class Infra(Exception):
    """The check itself failed: exit 2, never a verdict."""


def goenv():
    env = dict(os.environ)
    env.update(GOENV)
    env.setdefault("HOME", "/root")
    return env


def run(cmd, cwd=None, env=None, timeout=None, check=True, what=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    except subprocess.TimeoutExpired as e:
        raise Infra("timeout after %ss: %s" % (timeout, what or cmd)) from e
    if check and p.returncode != 0:
        raise Infra("%s failed (%d):\n%s\n%s" % (what or cmd, p.returncode, p.stdout[-4000:], p.stderr[-4000:]))
    return p


class Work:
    def __init__(self, prop):
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        self.repo = None

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def repo_dir(self):
        """The module under test: /repo itself, or a copy with a go.mod when it has none."""
        if self.repo:
            return self.repo
        if os.path.exists(os.path.join(REPO, "go.mod")) and os.path.exists(os.path.join(REPO, "go.sum")):
            self.repo = REPO
        else:
            dst = self.path("repo")
            shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns(".git"))
            shutil.copy(os.path.join(VERIF, "harness", "repo.go.mod"), os.path.join(dst, "go.mod"))
            shutil.copy(os.path.join(VERIF, "harness", "go.sum.in"), os.path.join(dst, "go.sum"))
            self.repo = dst
        return self.repo

    def build_harness(self, race=False):
        src = self.path("harness")
        if not os.path.isdir(src):
            os.makedirs(src)
            for f in os.listdir(os.path.join(VERIF, "harness")):
                if f.endswith(".go"):
                    shutil.copy(os.path.join(VERIF, "harness", f), src)
            mod = open(os.path.join(VERIF, "harness", "go.mod.in")).read()
            open(os.path.join(src, "go.mod"), "w").write(mod.replace("@REPO@", self.repo_dir()))
            shutil.copy(os.path.join(VERIF, "harness", "go.sum.in"), os.path.join(src, "go.sum"))
        out = self.path("vh-race" if race else "vh")
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
        run(cmd, cwd=src, env=goenv(), timeout=600, what="harness build")
        return out

    def build_command(self, name):
        """Builds one of the repository's commands."""
        self.build_harness()
        out = self.path("cmd-" + name)
        run(["go", "build", "-o", out, "github.com/jcorbin/anansi/cmd/" + name], cwd=self.path("harness"),
            env=goenv(), timeout=600, what="build of " + name)
        return out

    def build_overlay_test(self, pkg, files, race=False):
        """Builds an in-package test binary with extra files from /verif/overlay."""
        repo = self.repo_dir()
        ov = {"Replace": {os.path.join(repo, pkg, os.path.basename(f)): os.path.join(VERIF, "overlay", f)
                          for f in files}}
        ovf = self.path("overlay.json")
        json.dump(ov, open(ovf, "w"))
        mod = self.path("ov.mod")
        shutil.copy(os.path.join(repo, "go.mod"), mod)
        shutil.copy(os.path.join(repo, "go.sum"), self.path("ov.sum"))
        out = self.path(pkg.replace("/", "_") + (".race" if race else "") + ".test")
        run(["go", "test", "-c", "-vet=off", "-overlay", ovf, "-modfile", mod] + (["-race"] if race else []) +
            ["-o", out, "./" + pkg], cwd=repo, env=goenv(), timeout=600, what="overlay build")
        return out


_stats = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)
_evalerr = re.compile(r"Attempted to |The error occurred when TLC was evaluating|In applying the function|evaluating the nested|Error: Evaluating")
_depth = re.compile(r"depth of the complete state graph search is (\d+)")


def tlc(work, module, cfg, env=None, workers=1, args=(), timeout=600, heap="3g", tag=""):
    """Runs TLC; returns (stdout, generated, distinct, depth, ok, verdict)."""
    meta = tempfile.mkdtemp(prefix="tlc-" + tag, dir=work.dir)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-XX:CICompilerCount=2", "-Djava.io.tmpdir=" + meta, "-cp", TLAJAR, "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg)] + list(args) + \
          [os.path.join(SPEC, module + ".tla")]
    p = run(cmd, cwd=work.dir, env=e, timeout=timeout, check=False, what="tlc " + module + " " + cfg)
    shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = _stats.findall(out)
    d = _depth.search(out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    depth = int(d.group(1)) if d else 0
    if p.returncode == 0 and "No error has been found" in out:
        verdict = "ok"
    elif "Postcondition" in out and "is false" in out and not re.search(r"^Error: (?!Postcondition)", out, re.M):
        verdict = "rejected"
    else:
        verdict = "error"
    full = out
    if len(out) > 20000 and verdict != "ok":
        out = out[:2000] + "\n...\n" + out[-16000:]
    return dict(out=out, err=p.stderr, generated=gen, distinct=dist, depth=depth, verdict=verdict, full=full)


def tlc_strings(out, prefix="@@"):
    """Strings printed by PrintT that start with prefix, decoded."""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + prefix):
            res.append(json.loads(line)[len(prefix):])
    return res


def model_check(work, module, cfg, workers=4, timeout=800, gen=None, args=(), env=None, heap="8g"):
    """Explores a model exhaustively; its own failure is an infrastructure error."""
    r = tlc(work, module, cfg, workers=1 if gen else workers, timeout=timeout, args=args, env=env, heap=heap, tag="m")
    if r["verdict"] != "ok":
        raise Infra("model %s/%s: %s\n%s\n%s" % (module, cfg, r["verdict"], r["out"][-6000:], r["err"][-2000:]))
    n = 0
    if gen:
        with open(gen, "a") as f:
            for s in tlc_strings(r["out"]):
                f.write(s + "\n")
                n += 1
        if n == 0:
            raise Infra("model %s/%s generated no histories" % (module, cfg))
    return dict(model=module, config=cfg, states=r["distinct"], transitions=r["generated"], depth=r["depth"],
                histories=n)


class Crash(Infra):
    """The driver ended by a panic within the code under test."""

    def __init__(self, driver, what):
        Infra.__init__(self, "driver %s: %s" % (driver, what))
        self.driver, self.what = driver, what


def crashed(err):
    """What panicked, if that was in the code under test, and not in the driver."""
    m = re.search(r"^unexpected: .*", err, re.M)
    if m:
        return m.group(0)
    m = re.search(r"^(panic: |fatal error: concurrent ).*", err, re.M)
    if not m:
        return None
    g = re.search(r"^goroutine \d+.*\[running.*\]:\n((?:.+\n)*)", err[m.end():], re.M)
    for line in (g.group(1).split("\n") if g else ()):
        if line.startswith("main."):
            return None
        if line.startswith("github.com/jcorbin/anansi"):
            return m.group(0) + " in " + line
    return None


def drive(work, binary, driver, seed, n=0, gen=None, genmax=0, thorough=False, shards=4, timeout=600, extra=(), env=None):
    out = work.path("trace-" + driver)
    cmd = [binary, "-seed", str(seed), "-n", str(n), "-shards", str(shards), "-out", out, "-dir", work.path()]
    if gen:
        cmd += ["-gen", gen, "-genmax", str(genmax)]
    if thorough:
        cmd += ["-thorough"]
    cmd += list(extra) + [driver]
    p = run(cmd, env=env, timeout=timeout, check=False, cwd=work.dir, what="driver " + driver)
    if p.returncode != 0:
        crash = crashed(p.stderr)
        if crash:
            raise Crash(driver, crash)
        raise Infra("driver %s exited %d\n%s\n%s" % (driver, p.returncode, p.stdout[-3000:], p.stderr[-6000:]))
    info = json.loads(p.stdout.strip().splitlines()[-1])
    info["files"] = ["%s.%d" % (out, i) for i in range(shards)]
    info["driver"] = driver
    return info


def validate_one(work, module, trace, env, timeout, cfg="Trace.cfg"):
    lines = sum(1 for _ in open(trace))
    if lines == 0:
        return dict(ok=True, lines=0, generated=0, distinct=0, known=[])
    e = dict(env or {})
    e["TRACE"] = trace
    r = tlc(work, module, cfg, env=e, timeout=timeout, tag="t")
    known = sorted(set(tlc_strings(r["out"], "KNOWN ")))
    if r["verdict"] == "ok":
        return dict(ok=True, lines=lines, generated=r["generated"], distinct=r["distinct"], known=known)
    if r["verdict"] == "rejected" and 1 <= r["depth"] <= lines:
        return dict(ok=False, lines=lines, at=r["depth"], generated=r["generated"], distinct=r["distinct"], known=known)
    # an event that the specification cannot even be evaluated on is no step of it
    states = len(re.findall(r"^State \d+:", r["full"], re.M))
    if r["verdict"] == "error" and _evalerr.search(r["full"]) and 1 <= states <= lines:
        return dict(ok=False, lines=lines, at=states, generated=r["generated"], distinct=r["distinct"], known=known)
    raise Infra("trace validation %s on %s: %s (depth %s of %s)\n%s\n%s" % (
        module, trace, r["verdict"], r["depth"], lines, r["out"][-6000:], r["err"][-1000:]))


def extract_episode(trace, at):
    """Lines of the episode that contains line number at (1-based), up to it."""
    lines = open(trace).read().split("\n")
    start = at - 1
    while start > 0 and '"ev":"reset"' not in lines[start]:
        start -= 1
    return lines[start:at]


class Rejection:
    def __init__(self, module, lines, known, cfg):
        self.module, self.lines, self.known, self.cfg = module, lines, known, cfg


def validate(work, module, files, env=None, timeout=800, cfg="Trace.cfg", jobs=8):
    """Judges the trace shards; returns (stats, rejection or None)."""
    total = dict(generated=0, distinct=0, lines=0, known=set())
    rej = None
    with cf.ThreadPoolExecutor(jobs) as ex:
        for f, r in zip(files, ex.map(lambda f: validate_one(work, module, f, env, timeout, cfg), files)):
            total["generated"] += r["generated"]
            total["distinct"] += r["distinct"]
            total["lines"] += r["lines"]
            total["known"] |= set(r["known"])
            if not r["ok"] and rej is None:
                ep = extract_episode(f, r["at"])
                iso = work.path("isolated.ndjson")
                open(iso, "w").write("\n".join(ep) + "\n")
                r2 = validate_one(work, module, iso, env, timeout, cfg)
                if r2["ok"]:
                    raise Infra("rejected episode is accepted on its own: " + "\n".join(ep)[-3000:])
                rej = Rejection(module, ep, r["known"], cfg)
    return total, rej


def trim(x, n=400):
    s = x if isinstance(x, str) else json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."


def sample_episodes(files, k=2, maxev=6):
    res = []
    for f in files[:k]:
        ep = []
        for line in open(f):
            if '"ev":"reset"' in line and ep:
                break
            ep.append(trim(line.strip(), 300))
        res.append(ep[:maxev])
    return res
