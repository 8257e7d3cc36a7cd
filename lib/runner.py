"""Common frame of the checks: seeding, evidence, replay files, verdicts.

Exit codes: 0 the property held on everything explored, 1 with a VIOLATION
line, 2 the check itself failed (build or harness error, inconclusive run)."""
import fnmatch, hashlib, json, pickle, math, os, random, re, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, drv, gendata
from drv import Crash, LibError, HarnessError
VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Stop(Exception):
    pass


def close(a, b, rel=1e-9, ab=0.0):
    if a == b:
        return True
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return False
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), ab)


def diff(got, want, rel=1e-9, ab=0.0, path=""):
    """First difference between two nested values, or None."""
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return "%s: got %r, expected a map" % (path, got)
        for k in want:
            if k not in got:
                return "%s: %r missing (expected %r)" % (path, k, want[k])
        for k in got:
            if k not in want:
                return "%s: unexpected %r = %r" % (path, k, got[k])
        for k in want:
            d = diff(got[k], want[k], rel, ab, path + "/" + str(k))
            if d:
                return d
        return None
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            return "%s: got %r, expected %r" % (path, _short(got), _short(want))
        for i, (g, w) in enumerate(zip(got, want)):
            d = diff(g, w, rel, ab, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(want, bool) or isinstance(got, bool):
        return None if bool(got) == bool(want) else "%s: got %r, expected %r" % (path, got, want)
    if isinstance(want, (int, float)) and isinstance(got, (int, float)):
        return None if close(got, want, rel, ab) else "%s: got %.17g, expected %.17g" % (path, got, want)
    return None if got == want else "%s: got %r, expected %r" % (path, got, want)


def _short(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."


HARNESS = (HarnessError, build.BuildError, OSError, MemoryError, ImportError, NameError, SyntaxError)


class Check(object):
    def __init__(self, prop, rule, level="exploration"):
        self.prop, self.rule, self.level = prop, rule, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s/%s" % (prop, self.seed))
        self.t0 = time.time()
        self.evaluations = 0
        self.keys = set()
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.known_seen = {}
        self.files = {}
        self.tmp = None
        self.datadirs = {}
        self.drivers = []
        self.context = None
        self.extra = {}
        self.maxviol = int(os.environ.get("VERIF_KEEP", "1"))
        self.worker = ""
        self.kind = "asan"
        self.known = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                for line in f:
                    m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                    if m and m.group(1) == prop:
                        self.known.append({"key": m.group(2), "what": m.group(3).strip()})

    # -- bookkeeping
    def size(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def case(self, key=None, what=None, n=1):
        """One evaluated case; key identifies it when it is non trivial."""
        self.evaluations += n
        if key is not None:
            self.keys.add(hashlib.md5(repr(key).encode()).digest()[:8])
        if what:
            self.count(what, n)

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            s = json.dumps(obj)
            self.samples.append(obj if len(s) < 2500 else s[:2500])

    # -- scratch
    def scratch(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix="fisxv-")
        return self.tmp

    def datadir(self, seed=1, **kw):
        key = (seed, tuple(sorted(kw.items())))
        if key not in self.datadirs:
            d = os.path.join(self.scratch(), "data%s%d" % (self.worker, len(self.datadirs)))
            gendata.make(d, seed, **kw)
            self.datadirs[key] = d
        return self.datadirs[key]

    def write(self, name, content):
        name = self.worker + name
        p = os.path.join(self.scratch(), name)
        b = content if isinstance(content, bytes) else content.encode("latin-1")
        with open(p, "wb") as f:
            f.write(b)
        self.files[name] = b.decode("latin-1")
        if len(self.files) > 40:
            self.files.pop(next(iter(self.files)))
        return p

    def driver(self, kind=None, **kw):
        d = drv.Driver(kind or self.kind, **kw)
        self.drivers.append(d)
        return d

    # -- verdicts
    def fail(self, key, msg, detail=None, driver=None):
        for e in self.known:
            if fnmatch.fnmatchcase(key, e["key"]):
                self.known_seen[e["key"]] = e
                return
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        name = "replays/%s-%s-%d-%s%d.json" % (self.prop, self.tier, self.seed, self.worker, len(self.violations))
        d = driver or (self.drivers[-1] if self.drivers else None)
        cmds = d.log if d else []
        rec = {"property": self.prop, "key": key, "message": msg, "seed": self.seed, "tier": self.tier, "detail": detail,
               "context": self.context, "scratch": self.tmp, "datadirs": [[list(k), v] for k, v in self.datadirs.items()],
               "files": self.files, "commands": cmds}
        with open(os.path.join(VERIF, name), "w") as f:
            json.dump(rec, f, default=repr)
        self.violations.append(key)
        print("%s: [%s] %s" % (self.prop, key, msg if len(msg) < 1500 else msg[:1500] + "..."))
        if detail is not None:
            print("  detail: " + _short(detail)[:1500])
        if self.context is not None:
            print("  context: " + _short(self.context)[:800])
        print("VIOLATION property=%s replay=%s" % (self.prop, name))
        sys.stdout.flush()
        if len(self.violations) >= self.maxviol:
            raise Stop()

    def crash(self, c, driver, key=None):
        """A died process: sanitizer report, signal or (confirmed) hang."""
        if c.what.startswith("no answer"):
            log = list(driver.log)
            driver.restart()
            try:
                driver.raw(log)
            except Crash as c2:
                c = c2
            else:
                self.count("unconfirmed_timeouts")
                return
        site = crash_site(c.report)
        if site.startswith(("allocation-size-too-big", "out-of-memory", "calloc-overflow")):
            # an ordinary build reports this through std::bad_alloc
            self.count("memory_exhausted")
            driver.restart()
            return
        self.fail((key or "crash") + ":" + site, "the process running the library died on %s: %s" % (json.dumps(c.cmd)[:300], c.what),
                  {"report": c.report[:5000]}, driver)
        driver.restart()

    def unusable(self, e):
        """The library refused something valid, or gave an answer without the promised structure."""
        traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)
        own = [f for f in tb if os.path.basename(f.filename) not in ("drv.py", "runner.py")] or list(tb)
        last = [d.log[-1] for d in self.drivers[-1:] if d.log]
        self.fail("unusable:%s:%s" % (own[-1].name, type(e).__name__), "%s: %s (%s, line %d; last command %s)" % (
            type(e).__name__, e, own[-1].name, own[-1].lineno, json.dumps(last, default=repr)[:300]))

    def expect(self, ok, key, msg, detail=None, driver=None):
        if not ok:
            self.fail(key, msg, detail, driver)
        return ok

    def same(self, got, want, key, what, rel=1e-9, ab=0.0, driver=None, detail=None):
        """Compare a library answer with the expected value."""
        if isinstance(got, LibError):
            self.fail(key, "%s: the library raised %s" % (what, got), detail, driver)
            return False
        d = diff(got, want, rel, ab)
        if d:
            self.fail(key, "%s%s" % (what, d), detail, driver)
            return False
        return True

    # -- parallel exploration
    def spread(self, fn, n=8):
        """fn(self, i) in n processes, the first one with the sanitizers and the others without."""
        build.build("asan")
        build.build("plain")
        self.datadir(1 + self.seed % 3)

        def one(c, i):
            c.kind = "plain" if i else "asan"
            fn(c, i)
        self.fork(n, one)

    def fork(self, n, fn):
        """fn(self, i) in n processes with their own random stream; results are merged."""
        sys.stdout.flush()
        kids = []
        for i in range(n):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    os.close(rd)
                    for r in kids:
                        os.close(r[1])
                    self.worker = "w%d-" % i
                    self.rng = random.Random("%s/%s/%d" % (self.prop, self.seed, i))
                    self.drivers = []
                    self.evaluations, self.keys, self.counts, self.samples, self.files = 0, set(), {}, [], {}
                    err = None
                    try:
                        fn(self, i)
                    except Stop:
                        pass
                    except Crash as e:
                        try:
                            self.crash(e, self.drivers[-1])
                        except Stop:
                            pass
                    except HARNESS:
                        err = traceback.format_exc()
                    except Exception as e:
                        try:
                            self.unusable(e)
                        except Stop:
                            pass
                    for d in self.drivers:
                        try:
                            d.close()
                        except Exception:
                            pass
                    blob = pickle.dumps((err, self.evaluations, self.keys, self.counts, self.samples[:2], self.violations, self.known_seen))
                    with os.fdopen(wr, "wb") as f:
                        f.write(blob)
                    code = 0
                finally:
                    sys.stdout.flush()
                    os._exit(code)
            os.close(wr)
            kids.append((pid, rd))
        errs = []
        for pid, rd in kids:
            with os.fdopen(rd, "rb") as f:
                blob = f.read()
            os.waitpid(pid, 0)
            if not blob:
                errs.append("worker died")
                continue
            err, ev, keys, counts, samples, viol, seen = pickle.loads(blob)
            if err:
                errs.append(err)
            self.evaluations += ev
            self.keys |= keys
            for k, v in counts.items():
                self.count(k, v)
            for x in samples:
                self.sample(x)
            self.violations += viol
            self.known_seen.update(seen)
        if self.violations:
            raise Stop()
        if errs:
            raise HarnessError("\n".join(errs))

    # -- main
    def finish(self):
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.keys), "rule": self.rule,
               "samples": self.samples, "observed": self.counts}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)

    def run(self, main):
        code = 2
        try:
            try:
                main(self)
            except Crash as c:
                self.crash(c, self.drivers[-1])
            except (Stop,) + HARNESS:
                raise
            except Exception as e:
                self.unusable(e)
            code = 1 if self.violations else 0
            if code == 0 and not self.keys:
                print("%s: nothing was observed" % self.prop)
                code = 2
            if code == 0:
                for e in self.known:
                    if e["key"] in self.known_seen:
                        print("KNOWN-FINDING: property=%s %s" % (self.prop, e["what"]))
        except Stop:
            code = 1
        except build.BuildError as e:
            print("%s: build failed\n%s" % (self.prop, e))
        except Exception:
            traceback.print_exc()
            code = 1 if self.violations else 2
        finally:
            for d in self.drivers:
                try:
                    d.close()
                except Exception:
                    pass
            if self.tmp:
                shutil.rmtree(self.tmp, ignore_errors=True)
        self.finish()
        if code == 0:
            print("%s: held on %d cases (%d distinct) in %.1fs  %s" % (self.prop, self.evaluations, len(self.keys), time.time() - self.t0,
                                                                      " ".join("%s=%d" % kv for kv in sorted(self.counts.items()))[:600]))
        sys.stdout.flush()
        sys.exit(code)


def crash_site(report):
    """A stable name for a crash: kind and the first library frame."""
    import re
    kind = "unknown"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", report)
    if m:
        kind = m.group(1)
    else:
        m = re.search(r"runtime error: ([^\n]*)", report)
        if m:
            kind = "ub-" + re.sub(r"[^a-z]+", "-", re.sub(r"[-+0-9.e]{2,}|0x[0-9a-f]+|\d+", "", m.group(1).lower()))[:50].strip("-")
        elif "ThreadSanitizer" in report:
            kind = "race"
        elif "Assertion '" in report:
            kind = "assertion"
        elif "uninitialised value" in report or "Invalid read" in report or "Invalid write" in report:
            kind = "memcheck"
    m = re.search(r"(?:#\d+|\bin|\bby 0x[0-9A-F]+:|\bat 0x[0-9A-F]+:) (fisx::[\w:~]+)", report)
    return kind + "@" + (m.group(1) if m else "?")
