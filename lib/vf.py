"""Common machinery of the checks: building the driver from /repo's working
tree, running TLC, replaying cases, reporting violations and evidence."""
import json, os, random, shutil, subprocess, sys, tempfile, time, re, glob, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DATA = os.path.join(SPEC, "data")

GOENV = dict(
    HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
    GOWORK="off", CGO_ENABLED="1", GOPATH="/root/go",
    GOMODCACHE="/root/go/pkg/mod",
    PATH="/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
)
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """The machinery itself failed (exit status 2, never a VIOLATION)."""


def data(name):
    with open(os.path.join(DATA, name)) as f:
        return json.load(f)


NOBODY = 65534


class Check:
    may_drop = None      # whether programs can be run as another user
    MAX_REPORTED = 5

    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.t0 = time.time()
        self.states = 0          # distinct states TLC explored
        self.transitions = 0     # transitions TLC generated
        self.traces = 0          # behaviours compared with the implementation
        self.samples = []
        self.cov = {}
        self.assume = []
        self.violations = 0
        self.nontrivial = set()
        self.known_hits = {}
        self.seen_viol = set()
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            self.known = [k for k in json.load(f)["findings"] if k["property"] == pid]

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---- implementation -------------------------------------------------
    def build(self, race=False):
        """Builds the driver, as a package inside the module (overlay)."""
        gocache = os.environ.get("GOCACHE", "/root/.cache/go-build")
        files = {}
        for f in sorted(glob.glob(os.path.join(VERIF, "driver", "*.go"))):
            files[os.path.join(REPO, "internal/verifdrv", os.path.basename(f))] = f
        ov = os.path.join(self.work, "overlay.json")
        with open(ov, "w") as f:
            json.dump({"Replace": files}, f)
        out = os.path.join(self.work, "drv-race" if race else "drv")
        cmd = ["go", "build", "-overlay", ov, "-o", out] + (["-race"] if race else []) + ["./internal/verifdrv"]
        r = subprocess.run(cmd, cwd=REPO, env=dict(GOENV, GOCACHE=gocache),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Broken("building the driver failed:\n" + r.stdout[-4000:])
        return out

    def gobuild(self, pkg, out, race=False):
        gocache = os.environ.get("GOCACHE", "/root/.cache/go-build")
        cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + [pkg]
        r = subprocess.run(cmd, cwd=REPO, env=dict(GOENV, GOCACHE=gocache),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Broken("building %s failed:\n%s" % (pkg, r.stdout[-4000:]))
        return out

    # ---- containment ----------------------------------------------------
    def unprivileged(self, *paths):
        """Arguments for subprocess that run a program as a user who owns
        nothing but the given files of the work directory: what the code
        under test writes, renames or removes elsewhere fails."""
        if os.geteuid() != 0:
            return {}
        os.chmod(self.work, 0o711)
        for top in paths:
            for d, _, fs in os.walk(top):
                for f in [d] + [os.path.join(d, f) for f in fs]:
                    os.lchown(f, NOBODY, NOBODY)
        if self.may_drop is None:
            try:
                self.may_drop = subprocess.run(["true"], user=NOBODY, group=NOBODY, extra_groups=[]).returncode == 0
            except (OSError, subprocess.SubprocessError):
                self.may_drop = False
        return dict(user=NOBODY, group=NOBODY, extra_groups=[]) if self.may_drop else {}

    def drive(self, drv, mode, reqs, timeout=300, env=None, user=None):
        """One JSON response per request.  A crash or a hang of the driver
        becomes the response {"crash": ...} of the request that caused it;
        the remaining requests are then run by a new process."""
        if len(reqs) > 3000:
            from concurrent.futures import ThreadPoolExecutor
            n = (len(reqs) + 5) // 6
            with ThreadPoolExecutor(6) as ex:
                parts = list(ex.map(lambda k: self._drive(drv, mode, reqs[k * n:(k + 1) * n], timeout, env, str(k), user),
                                    range(6)))
            return [x for p in parts for x in p]
        return self._drive(drv, mode, reqs, timeout, env, "", user)

    def _drive(self, drv, mode, reqs, timeout, env, tag, user=None):
        res = []
        base = 0
        crashes = 0
        while base < len(reqs):
            inp = "".join(json.dumps(r) + "\n" for r in reqs[base:])
            fin = os.path.join(self.work, "drv.in" + tag)
            with open(fin, "w") as f:
                f.write(inp)
            with open(fin) as f, open(os.path.join(self.work, "drv.err" + tag), "w") as ferr:
                try:
                    p = subprocess.run([drv, mode], stdin=f, stdout=subprocess.PIPE, stderr=ferr,
                                       timeout=timeout, env=dict(GOENV, **(env or {})), **(user or {}))
                    out, rc = p.stdout, p.returncode
                except subprocess.TimeoutExpired as e:
                    out, rc = e.stdout or b"", -1
            lines = out.decode("utf-8", "replace").split("\n")
            got = [json.loads(l) for l in lines[:-1] if l]
            res += got
            base += len(got)
            if base < len(reqs):
                with open(os.path.join(self.work, "drv.err" + tag)) as f:
                    err = f.read()[-1500:]
                res.append({"crash": "driver ended with status %s: %s" % (rc, err)})
                base += 1
                crashes += 1
                if crashes > 20:
                    res += [{"crash": "not run"}] * (len(reqs) - base)
                    break
        return res

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=8, timeout=800, extra=(), xss="256m", heap="8g",
            count=True):
        """Runs TLC; returns the values the specification reported (the
        lines "RES <json>").  Any violated invariant is an error of the
        machinery: the specification is checked before the code is judged."""
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + self.work, "-Xss" + xss, "-Xmx" + heap, "-cp", TLA_CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"] + list(extra) + \
              ["-config", os.path.join(SPEC, cfg), os.path.join(SPEC, module)]
        out = os.path.join(self.work, "tlc.out")
        e = dict(os.environ)
        e.update(env or {})
        with open(out, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=self.work, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Broken("TLC timed out on %s" % cfg)
        res, gen, dist, tail = [], None, None, []
        with open(out) as f:
            for line in f:
                if line.startswith('"RES '):
                    res.append(json.loads(json.loads(line)[4:]))
                    continue
                tail.append(line)
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
                if m:
                    gen, dist = int(m[1]), int(m[2])
        if r.returncode != 0 or gen is None:
            raise Broken("TLC failed on %s/%s (status %d):\n%s" % (module, cfg, r.returncode, "".join([l for l in tail if l.startswith("Error")][:5] + tail[-60:])[-9000:]))
        if count:
            self.states += dist
            self.transitions += gen
        shutil.rmtree(meta, ignore_errors=True)
        os.unlink(out)
        return res

    def tlc_cases(self, module, cfg, conf, envname, timeout=800, **kw):
        # (TLC reads the files once per definition that mentions them: the
        # large part is kept apart)
        env = {}
        t = time.monotonic_ns()
        for k, v in ((envname, {k: v for k, v in conf.items() if k != "cases"}), (envname + "_CASES", conf["cases"])):
            env[k] = os.path.join(self.work, "%s-%d.json" % (k, t))
            with open(env[k], "w") as fh:
                json.dump(v, fh)
        res = self.tlc(module, cfg, env=env, timeout=timeout, **kw)
        for f in env.values():
            os.unlink(f)
        return res

    # ---- reporting ------------------------------------------------------
    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def matches_known(self, key):
        for k in self.known:
            if k.get("key") == key:
                return k
        return None

    def known_finding(self, key):
        """The listed finding `key` showed up."""
        self.known_hits[key] = self.known_hits.get(key, 0) + 1

    def violation(self, what, case):
        self.violations += 1
        if self.violations > self.MAX_REPORTED:
            return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        body = json.dumps({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "what": what, "case": case}, indent=1, ensure_ascii=True, default=str)
        path = os.path.join(d, "%s-%s.json" % (self.pid, hashlib.sha1(body.encode()).hexdigest()[:12]))
        with open(path, "w") as f:
            f.write(body + "\n")
        print("  " + what.replace("\n", "\n  "))
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def finish(self):
        for k in self.known:
            if k.get("key") and k.get("status") != "fixed":
                if self.known_hits.get(k["key"]):
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                else:
                    print("note: listed finding %s was not reproduced by this run" % k["key"])
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        cov.update(self.cov)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2),
              "violations": self.violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        self.log("states=%d transitions=%d traces=%d violations=%d" %
                 (self.states, self.transitions, self.traces, self.violations))
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)
