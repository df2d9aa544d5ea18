"""Everything the checks share: building the harness from /repo's working tree,
running it, running TLC, reporting, evidence."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, glob, hashlib, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("POLVERIF_REPO", "/repo")      # elsewhere only while developing
SPECS = os.path.join(VERIF, "specs")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not be carried out."""


class Violation(Exception):
    def __init__(self, what, data):
        super().__init__(what)
        self.what, self.data = what, data


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.tmp = tempfile.mkdtemp(prefix="polverif-%s-" % prop)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0,
                    "model_runs": [], "samples": []}
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.bins = {}
        self.n = 0
        self.known = load_known(prop)
        self.known_hit = []

    def log(self, msg):
        print("[%s %6.1fs] %s" % (self.prop, time.time() - self.t0, msg), flush=True)

    def path(self, name):
        self.n += 1
        return os.path.join(self.tmp, "%03d-%s" % (self.n, name))

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- building -------------------------------------------------------
    def build(self, race=False):
        if race in self.bins:
            return self.bins[race]
        over = {"Replace": {os.path.join(REPO, "zz_verif_harness", os.path.basename(f)): f
                            for f in glob.glob(os.path.join(VERIF, "harness", "*.go"))}}
        of = self.path("overlay.json")
        with open(of, "w") as f:
            json.dump(over, f)
        out = os.path.join(self.tmp, "harness" + ("-race" if race else ""))
        r = subprocess.run(["go", "build"] + (["-race"] if race else []) + ["-buildvcs=false", "-overlay", of, "-o", out, "./zz_verif_harness"],
                           cwd=REPO, env=goenv(), capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("the harness does not build against /repo:\n" + r.stderr[-4000:])
        self.bins[race] = out
        self.log("harness built" + (" with the race detector" if race else ""))
        return out

    # ---- running the real code -----------------------------------------
    def replay(self, scenarios, timeout=450, workers=None, env=None, race=False):
        """Runs scenarios in the real code; returns the list of events."""
        binary = self.build(race)
        if race:
            env = dict(env or {}, GORACE="halt_on_error=1 exitcode=66 history_size=3")
        for i, s in enumerate(scenarios):
            s.setdefault("sid", i + 1)
        workers = max(1, min(workers or CORES, len(scenarios)))
        # scenarios that take long have a process of their own
        solo = [s for s in scenarios if s.get("solo")]
        rest = [s for s in scenarios if not s.get("solo")]
        chunks = [[s] for s in solo] + [c for c in (rest[i::workers] for i in range(workers)) if c]
        with ThreadPoolExecutor(len(chunks) or 1) as ex:
            parts = list(ex.map(lambda c: self._run(c, timeout, env, binary), chunks))
        bysid = {}
        for p in parts:
            for e in p:
                bysid.setdefault(e["sid"], []).append(e)
        return [e for sid in sorted(bysid) for e in bysid[sid]]

    def _run(self, scenarios, timeout, env, binary):
        events, todo = [], list(scenarios)
        while todo:
            sf, tf = tempfile.mktemp(dir=self.tmp, suffix=".scn"), tempfile.mktemp(dir=self.tmp, suffix=".ev")
            with open(sf, "w") as f:
                for s in todo:
                    f.write(json.dumps(s) + "\n")
            e = goenv()
            e.update(env or {})
            e.setdefault("GOMEMLIMIT", "2500MiB")
            e.setdefault("GOGC", "400")
            try:
                r = subprocess.run([binary, sf, tf], env=e, capture_output=True, text=True, timeout=timeout)
                rc, err = r.returncode, r.stderr
            except subprocess.TimeoutExpired:
                rc, err = None, ""
            got = [json.loads(l) for l in open(tf)] if os.path.exists(tf) else []
            os.unlink(sf)
            if os.path.exists(tf):
                os.unlink(tf)
            if rc is None:
                # The code under test did not come back
                last = got[-1]["sid"] if got else todo[0]["sid"]
                events += got + [{"sid": last, "ev": "hang"}]
                done = {e["sid"] for e in events}
                return events + [{"sid": s["sid"], "ev": "hang"} for s in todo if s["sid"] not in done]
            if rc == 3 or "HARNESS-ERROR" in err:
                raise CheckError("harness error: " + err[-2000:])
            events += got
            if rc == 0:
                return events
            if rc < 0 and -rc in (signal.SIGKILL, signal.SIGTERM):
                raise CheckError("the harness was killed by signal %d" % -rc)
            # The code under test took the whole process down (a panic outside the
            # calling goroutine, a fatal runtime error).
            last = got[-1]["sid"] if got else todo[0]["sid"]
            idx = [s["sid"] for s in todo].index(last)
            if rc == 66 and "DATA RACE" in err:
                events.append({"sid": last, "ev": "race", "text": err[err.find("WARNING: DATA RACE"):][:1500].encode("ascii", "replace").decode()})
            else:
                events.append({"sid": last, "ev": "crash", "text": tail_of_panic(err)})
            todo = todo[idx + 1:]
            if len([x for x in events if x["ev"] in ("crash", "race")]) > 3:
                return events
        return events

    # ---- TLC -------------------------------------------------------------
    def tlc(self, module, cfg, args=(), env=None, workers=None, timeout=800, extra=None, heap="4g"):
        """Runs TLC on specs/<module>.tla with the given configuration text."""
        d = tempfile.mkdtemp(dir=self.tmp, prefix="tlc-")
        for f in glob.glob(os.path.join(SPECS, "*.tla")):
            shutil.copy(f, d)
        for name, text in (extra or {}).items():
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", TLA_CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers or CORES),
               "-metadir", os.path.join(d, "meta"), "-config", "run.cfg"] + list(args) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC did not finish %s within %d s" % (module, timeout))
        out = r.stdout + r.stderr
        shutil.rmtree(d, ignore_errors=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        stats = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        return r.returncode, out, stats

    def model(self, name, module, cfg, expect_violation=None, **kw):
        """Model-checks a specification; it must hold (or, for a deliberately
        broken variant, must be refuted)."""
        t = time.time()
        rc, out, (gen, dist) = self.tlc(module, cfg, **kw)
        if expect_violation:
            if not re.search(r"(Invariant|Property|Action property|Temporal properties).*(violated|were violated)", out) or expect_violation not in out:
                raise CheckError("the specification %s (%s) should have been refuted on %s:\n%s" % (module, name, expect_violation, clean(out)))
        elif rc != 0 or "No error has been found" not in out and "-simulate" not in kw.get("args", ()):
            raise CheckError("the specification %s (%s) is not satisfied by its own design:\n%s" % (module, name, clean(out)))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["model_runs"].append({"model": name, "distinct_states": dist, "states_generated": gen,
                                       "refuted_as_expected": bool(expect_violation), "wall_s": round(time.time() - t, 1)})
        self.log("model %s: %d distinct states, %d generated" % (name, dist, gen))
        return out

    def generate(self, module, cfg, extra, num=None, depth=None, limit=None):
        """Lets TLC print scenarios (lines "SCN...")."""
        args = []
        if num:
            args = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.rng.randrange(1, 2**31))]
        rc, out, _ = self.tlc(module, cfg, args=args, extra=extra, workers=1)
        res = []
        for line in out.splitlines():
            if line.startswith('"SCN'):
                res.append(json.loads(json.loads(line)[3:]))
        if not res or "Error:" in out:
            raise CheckError("no scenarios from %s:\n%s" % (module, clean(out)))
        if limit and len(res) > limit:
            res = self.rng.sample(res, limit)
        return res

    # ---- judging traces ----------------------------------------------------
    def validate(self, module, consts, events, scenarios, describe=None, extra=None, shards=None):
        """Checks recorded events against a trace specification."""
        if not events:
            raise CheckError("no events were recorded")
        bysid = {}
        for e in events:
            bysid.setdefault(e["sid"], []).append(e)
        sids = sorted(bysid)
        missing = [s["sid"] for s in scenarios if s["sid"] not in bysid]
        if missing and not any(e["ev"] in ("crash", "race", "hang") for e in events):
            raise CheckError("no events for scenarios %s" % missing[:5])
        shards = shards or (CORES if len(events) > 3000 else 1)
        size = (len(sids) + shards - 1) // shards
        groups = [sids[i:i + size] for i in range(0, len(sids), size)]

        def one(g):
            evs = [e for s in g for e in bysid[s]]
            tf = tempfile.mktemp(dir=self.tmp, suffix=".ndjson")
            with open(tf, "w") as f:
                for e in evs:
                    f.write(json.dumps(e) + "\n")
            cfg = "SPECIFICATION TSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n" + consts
            rc, out, stats = self.tlc(module, cfg, env={"TRACE": tf}, workers=1, extra=extra, heap="3g")
            os.unlink(tf)
            m = re.search(r'<<"REJECTED", (\d+)>>', out)
            if m:
                return evs[int(m.group(1)) - 1], stats, out
            if rc != 0 and stats[1] > 0 and "Error: " in out and "Parsing or semantic analysis failed" not in out:
                # The event has a shape the specification gives no meaning to
                return dict(evs[min(stats[1], len(evs)) - 1], malformed=clean(out)[-600:]), stats, out
            if rc != 0 or "No error has been found" not in out:
                raise CheckError("TLC failed on a trace (%s):\n%s" % (module, clean(out)))
            return None, stats, out

        bad = []
        with ThreadPoolExecutor(max(1, len(groups))) as ex:
            for b, stats, out in ex.map(one, groups):
                self.cov["events_validated"] += stats[1] - 1
                if b is not None:
                    bad.append(b)
        self.cov["traces_validated_against_impl"] += len(sids)
        byid = {s["sid"]: s for s in scenarios}
        if not self.cov["samples"]:
            s0 = byid[sids[len(sids) // 2]]
            self.cov["samples"].append({"scenario": trim(s0), "events": [trim(e) for e in bysid[s0["sid"]][:6]]})
        for b in bad:
            k = self.match_known(b, byid.get(b["sid"]))
            if k:
                continue
            what = describe(b) if describe else "event rejected by %s: %s" % (module, json.dumps(trim(b)))
            raise Violation(what, {"scenario": byid.get(b["sid"]), "rejected_event": b, "trace_spec": module,
                                   "consts": consts, "events_of_scenario": bysid[b["sid"]][-60:]})
        self.log("%s: %d scenarios, %d events accepted" % (module, len(sids), len(events)))

    def match_known(self, event, scenario):
        for k in self.known:
            if k["match"] and k["match"] in json.dumps({"event": event, "scenario": scenario}, sort_keys=True):
                self.known_hit.append(k)
                return k
        return None

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def trim(x, n=600):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def clean(out):
    return "\n".join(l for l in out.splitlines() if not re.match(r"(Parsing|Semantic|Linting)", l))[-3500:]


def tail_of_panic(err):
    i = err.find("panic:")
    j = err.find("fatal error:")
    k = min([x for x in (i, j) if x >= 0], default=max(0, len(err) - 600))
    return err[k:k + 600].encode("ascii", "replace").decode()


def goenv():
    e = dict(os.environ)
    e.update({"HOME": "/root", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=readonly", "GOWORK": "off"})
    return e


def load_known(prop):
    """known-findings.txt: 'finding: property=<id> match=<text> <description>' or 'fixed: ...'"""
    res = []
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res.append({"match": m.group(2), "what": m.group(3).strip()})
    return res


def cfg(*lines):
    return "\n".join(lines) + "\n"


def tla_str(s):
    return '"%s"' % s


def tla_seq(xs):
    return "<< " + ", ".join(xs) + " >>"


def tla_limbs(n):
    out = []
    while n:
        out.append(str(n % (1 << 24)))
        n >>= 24
    return tla_seq(out) if out else "<< >>"
