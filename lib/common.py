"""Generators and comparison helpers shared by the checks."""
import math, os, sys, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, drv, gendata, ref, runner
from drv import Crash, LibError, HarnessError
from ref import RefError, SHELLS, PART
from runner import Check, close, diff


class Lab(object):
    """A loaded library object and the reference model of the same data."""
    def __init__(self, c, mode="default", dataseed=None, handle="E", driver=None):
        self.c = c
        self.h = handle
        self.mode = mode
        self.dir = c.datadir(dataseed if dataseed is not None else 1 + c.seed % 3)
        self.D = driver or c.driver()
        self.binding = self.xs = None
        p = lambda n: os.path.join(self.dir, n)
        if mode == "custom":
            self.binding, self.xs = p("BindingEnergies.dat"), p("XCOM_CrossSections.dat")
        self.load()
        self.R = ref.load_elements(self.dir, gendata.parse_spec, gendata.read_binding, self.binding, self.xs, mode == "pymca")

    def load(self):
        if self.mode == "pymca":
            self.D.call("E.new", self.h, self.dir, 1)
        elif self.mode == "custom":
            self.D.call("E.new", self.h, self.dir, self.binding, self.xs)
        else:
            self.D.call("E.new", self.h, self.dir)

    def reload(self):
        self.D.restart()
        self.load()


def batch(c, D, cmds, size=400):
    """Run commands, a crash is reported as a violation and skipped."""
    out = []
    for k in range(0, len(cmds), size):
        out += D.batch(cmds[k:k + size])
    return out


def energy(r, e=None, lo=0.05, hi=300.0):
    """A photon energy; special values of RefElement e are likely."""
    m = r.random()
    if e is not None and m < 0.45:
        bs = [b for b in e.binding.values() if b > lo]
        if bs:
            return r.choice(bs) * r.choice([1.0, 1.0, 1 + 1e-4, 1 - 1e-4, 1.02, 0.98])
    if e is not None and m < 0.6 and e.grid:
        return min(max(r.choice(e.grid), lo), hi)
    if m < 0.7:
        return float("%.1f" % math.exp(r.uniform(math.log(max(lo, 0.5)), math.log(hi))))
    return math.exp(r.uniform(math.log(lo), math.log(hi)))


def away(e, x, rel=2e-5):
    """x moved off the immediate vicinity of the edges of e (exact values stay)."""
    for g in e.binding.values():
        if g > 0 and x != g and abs(x - g) < rel * g:
            return g
    return x


def outcome(got, want):
    """Compare success/rejection only: True when they agree."""
    return isinstance(got, LibError) == isinstance(want, RefError)


def attempt(f, *a, **k):
    try:
        return f(*a, **k)
    except RefError as e:
        return e


def judge(c, cmd, got, want, key, rel=1e-9, ab=1e-300, norm=None, driver=None):
    """got: library answer or LibError; want: expected answer or RefError."""
    w = want
    if isinstance(want, RefError):
        if not isinstance(got, LibError):
            c.fail(key + ":accepted", "%s must be rejected (%s) but gave %s" % (_j(cmd), want, _j(got)), None, driver)
            return False
        return True
    if isinstance(got, LibError):
        c.fail(key + ":raised", "%s raised %s; expected %s" % (_j(cmd), got, _j(w)), None, driver)
        return False
    if norm:
        got, w = norm(got), norm(w)
    d = diff(got, w, rel, ab)
    if d:
        c.fail(key, "%s: %s" % (_j(cmd), d), {"got": got, "expected": w}, driver)
        return False
    return True


def _j(o):
    import json
    s = json.dumps(o, default=repr)
    return s if len(s) < 400 else s[:400] + "..."


def subset(r, seq, lo, hi):
    return r.sample(list(seq), min(len(seq), r.randint(lo, hi)))


def argv_tier():
    pass
