"""C05: caches never change an answer."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import c12_datafiles as files
import c13_usermu as usermu
import shellgen, xrfgen
RULE = ("random histories of cache operations (enable, fill, update, clear, disable; coefficients, cascade, escape, detector), data updates "
        "(attenuation coefficients and files, binding energies, shell data and files, replaced elements, materials, detector settings), copies and "
        "queries on a library and on an element; each query is also put to a twin that gets the same data updates and no cache operation; a case is "
        "one query answered while at least one cache was filled")


class World(object):
    """Shared parts: a small pool of elements and energies, so that the caches are hit."""
    def __init__(self, c, D, r, lab):
        self.c, self.D, self.r, self.lab = c, D, r, lab
        self.R = lab.R
        pool = subset(r, lab.R.order[5:92], 5, 5)
        self.pool = sorted(set(pool + [r.choice(["Si", "Ge", "Pb", "Fe"])]))
        self.energies = []
        for el in self.pool:
            self.energies += [energy(r, self.R.el[el], 1.0, 120.0) for _ in range(2)]
        x = r.choice(self.energies)
        self.energies += [math.nextafter(x, 1e9), math.nextafter(x, 0)]
        self.filled = False
        self.log = []

    def x(self):
        return self.r.choice(self.energies) if self.r.random() < .85 else energy(self.r, self.R.el[self.r.choice(self.pool)], .5, 150.)

    def xs(self, lo=0, hi=5):
        return [self.x() for _ in range(self.r.randint(lo, hi))]

    def both(self, cmd, ha, hb, subst=()):
        """The same command for A and for B; True when accepted by both."""
        a = self.D.attempt(*[ha.get(v, v) if isinstance(v, str) else v for v in cmd])
        b = self.D.attempt(*[hb.get(v, v) if isinstance(v, str) else v for v in cmd])
        self.log.append(cmd[:4])
        self.c.context = {"pool": self.pool, "history": self.log[-12:]}
        if isinstance(a, LibError) != isinstance(b, LibError):
            self.c.fail("%s:rejected" % cmd[0], "%s: with caches %s, without %s" % (_j(cmd), _j(str(a)), _j(str(b))))
        return a, b

    def query(self, cmd, ha, hb):
        a, b = self.both(cmd, ha, hb)
        self.log.pop()
        if isinstance(a, LibError) or isinstance(b, LibError):
            self.c.count("rejected_by_both")
            return
        d = diff(norm(a), norm(b), 1e-9, 1e-13 if "escape" in cmd[0] else 1e-300)
        if d:
            self.c.fail(cmd[0], "%s: with caches against without: %s" % (_j(cmd), d), {"with": a, "without": b})
        self.c.case((self.lab.mode, tuple(self.pool), len(self.log), _j(cmd)) if self.filled else None, cmd[0] + ("" if self.filled else "_nothing_cached"))


def norm(v):
    """Emission of zero rate is the same as none."""
    if isinstance(v, dict):
        out = {}
        for k, w in v.items():
            if isinstance(w, dict) and w.get("rate") == 0 and set(w) <= {"rate", "energy"}:
                continue
            out[k] = norm(w)
        return out
    return v


def library(c, D, r, lab, steps):
    w = World(c, D, r, lab)
    for n in ["Alloy%d" % i for i in range(6)]:
        D.attempt("E.removeMaterial", lab.h, n)
    gen = xrfgen.Gen(lab, r, els=w.pool)
    D.call("E.copy", "LA", lab.h)
    D.call("E.copy", "LB", lab.h)
    HA, HB = {"$": "LA", "$X": "XA", "$d": "dA"}, {"$": "LB", "$X": "XB", "$d": "dB"}
    dets = [ref.normalise({e: r.uniform(.1, 1) for e in subset(r, w.pool, 1, 2)}) for _ in range(2)]
    escs = [[comp, .01, r.choice([1e-7, 1e-4]), r.choice([4, 10]), r.choice([90., 45.]), r.choice([0.0, 1.0])] for comp in dets for _ in range(2)]
    escs.append([dict(escs[0][0])] + escs[0][1:])
    k0 = sorted(escs[-1][0])[0]
    escs[-1][0][k0] *= 1.5                       # same elements, other amounts
    near = list(escs[0])
    near[r.choice([2, 4, 5])] += .001            # nearly the same detector
    escs.append(near)
    state = {"label": 0, "on": {}, "esc": D.call("E.escEnabled", "LA")}

    def esc_args():
        return r.choice(escs)

    def new_detector():
        for h in ("dA", "dB"):
            D.call("det.new", h, r.choice(["det"]), 2.0, .1, 1.0)
        comp = r.choice(dets)
        D.call("mat.new", "dm", "detmat", 1.0, 1.0, "")
        D.call("mat.compM", "dm", comp)
        for h in ("dA", "dB"):
            D.call("det.matM", h, "dm")

    def new_setup():
        cfg = gen.config(2, 2, 2, 4.0, 60.0)
        for h in ("XA", "XB"):
            gen.apply(cfg, h)
        state["cfg"] = cfg
    new_detector()
    new_setup()

    def changed():
        state["label"] += 1                      # a label names one state of the data

    def cache_op():
        el = r.choice(w.pool)
        m = r.random()
        if m < .45:
            op = r.choice([["E.cEnable", "LA", el, 1], ["E.cFill", "LA", el, w.xs(1, 6)], ["E.cUpdate", "LA", el, w.xs(1, 6)],
                           ["E.cEnable", "LA", el, 1], ["E.cFill", "LA", el, list(w.energies)], ["E.cUpdate", "LA", el, list(w.energies)],
                           ["E.cEnable", "LA", el, 0], ["E.cClear", "LA", el]])
        elif m < .75:
            op = r.choice([["E.ccEnable", "LA", el, 1], ["E.ccEnable", "LA", el, 1], ["E.ccFill", "LA", el], ["E.ccFill", "LA", el],
                           ["E.ccEmpty", "LA", el], ["E.ccEnable", "LA", el, 0]])
        else:
            comp, eth, ith, nth, alpha, thick = esc_args()
            op = r.choice([["E.escEnable", "LA", 1], ["E.escUpdate", "LA", comp, w.xs(1, 4), eth, ith, nth, alpha, thick],
                           ["E.escUpdate", "LA", comp, list(w.energies[:6]), eth, ith, nth, alpha, thick],
                           ["E.escUpdate", "LA", comp, list(w.energies[:6]), eth, ith, nth, alpha, thick],
                           ["E.escClear", "LA"], ["E.escEnable", "LA", 0]])
        before = D.attempt("E.cSize", "LA", el)
        g = D.attempt(*op)
        w.log.append(op[:4])
        c.count("cache_operations")
        modes("E.", op, g, before, ["LA", el] if op[0][:3] == "E.c" and op[0][:4] != "E.cc" else None)
        if op[0] in ("E.cFill", "E.cUpdate", "E.ccFill", "E.escUpdate") or (op[0] == "E.ccEnable" and op[3]):
            if isinstance(g, LibError):
                c.count("cache_refused")
            else:
                w.filled = True
                c.count("fill_" + op[0][2:])

    def modes(p, op, g, before, who):
        """The caches are in use or not as last told, and hold what they were given."""
        if op[0] == "E.escEnable":
            state["esc"] = op[2]
        elif op[0] == "E.cEnable" and not isinstance(g, LibError):
            state["on"][op[2]] = op[3]
        if who:
            expect_cache(c, D, p, op, g, before, who)
        for e, on in state["on"].items():
            got = D.call("E.cEnabled", "LA", e)
            if bool(got) != bool(on):
                c.fail("E.cEnabled", "cache of %s said to be %s after it was last set to %s and %s" % (e, got, on, _j(op[:4])))
        got = D.call("E.escEnabled", "LA")
        if bool(got) != bool(state["esc"]):
            c.fail("E.escEnabled", "escape cache said to be %s after it was last set to %s and %s" % (got, state["esc"], _j(op[:4])))

    def update(el=None):
        m = r.random() if el is None else r.uniform(0, .9)
        el = el or r.choice(w.pool)
        if m < .35:
            t = usermu.supplied(r, lab.R.el[el])
            w.both(["E.setMu", "$", el] + list(t), HA, HB)
            c.count("update_mu")
        elif m < .6:
            kind, main, p = r.choice(FILES["shell"])
            w.both([{"const": "E.constFile", "rad": "E.radFile", "non": "E.nonFile"}[kind], "$", main, p], HA, HB)
            c.count("update_" + kind)
        elif m < .64:
            w.both(["E.muFile", "$", r.choice(FILES["mu"])], HA, HB)
            c.count("update_mufile")
        elif m < .9:
            # the element is replaced by a changed one
            D.call("el.from", "tmp", "LB", el)
            for _ in range(r.randint(1, 2)):
                g = D.attempt(*element_update(r, lab.R.el[el], "tmp"))
            if r.random() < .3:
                # whose own cache is already filled
                D.attempt("el.cFill", "tmp", w.xs(1, 5))
                D.attempt("el.ccFill", "tmp")
                D.call("el.copy", "tmpB", "tmp")
                D.call("el.cClear", "tmpB")
                D.call("el.ccEmpty", "tmpB")
            else:
                D.call("el.copy", "tmpB", "tmp")
            w.both(["E.addElement", "$", "tmp"], HA, dict(HB, tmp="tmpB"))
            state["on"].pop(el, None)
            for q in (["mu", w.x()], ["exc", w.x(), 1.0], ["emitted", 100.0], ["fromvac", {"K": .5, "L2": 1.0}, 1, 1]):
                a, b = D.attempt("E." + q[0], "LA", el, *q[1:]), D.attempt("el." + q[0], "tmpB", *q[1:])
                if isinstance(a, LibError) != isinstance(b, LibError) or (not isinstance(a, LibError) and diff(norm(a), norm(b), 1e-9, 1e-300)):
                    c.fail("replaced", "%s of the replaced %s: %s from the library, %s from the element" % (q, el, _j(a)[:200], _j(b)[:200]))
            c.count("update_element")
        elif m < .95:
            n = r.choice(gen.registered)
            w.both(["E.setCompM", "$", n, ref.normalise({e: r.uniform(.1, 1) for e in subset(r, w.pool, 1, 3)})], HA, HB)
            c.count("update_material")
        else:
            cmd = r.choice([["det.minI", "$d", r.choice([1e-7, 1e-3, 1e-5])], ["det.minE", "$d", .02], ["det.nesc", "$d", r.randint(1, 8)],
                            ["det.diameter", "$d", 1.0], ["det.matM", "$d", "dm"], ["det.escClear", "$d"]])
            if cmd[0] == "det.matM":
                D.call("mat.new", "dm", "detmat", 1.0, 1.0, "")
                D.call("mat.compM", "dm", r.choice(dets))
            w.both(cmd, HA, HB)
            c.count("update_detector")
            return
        changed()

    def query():
        el = r.choice(w.pool)
        m = r.random()
        comp = {e: r.uniform(.1, 1) for e in subset(r, w.pool, 1, 3)}
        if m < .12:
            q = r.choice([["E.mu", "$", el, w.x()], ["E.muv", "$", el, w.xs(1, 4)]])
        elif m < .22:
            q = r.choice([["E.mum", "$", comp, w.x(), 0], ["E.mumv", "$", comp, w.xs(1, 4), 0], ["E.mu", "$", r.choice(gen.registered), w.x()]])
        elif m < .4:
            q = r.choice([["E.exc", "$", el, w.x(), r.choice([1.0, .37])], ["E.excv", "$", el, w.xs(1, 4), r.choice([[], [.5]])]])
        elif m < .47:
            q = r.choice([["E.emitted", "$", el, w.x()], ["E.vac", "$", el, w.x()], ["E.families", "$", el, w.x()]])
        elif m < .6:
            dist = {s: r.choice([1.0, r.random(), 0.0]) for s in subset(r, SHELLS, 1, 5)}
            q = ["E.fromvac", "$", el, dist, r.randint(0, 1), r.randint(0, 1)]
            if r.random() < .3:
                dist["all other"] = r.random()
        elif m < .78:
            comp, eth, ith, nth, alpha, thick = esc_args()
            q = ["E.escape", "$", comp, w.x(), eth, ith, nth, alpha, thick]
        elif m < .88:
            lb = r.choice(["", "s%d" % state["label"], "s%d" % state["label"]])
            q = ["det.escape", "$d", w.x(), "$", lb, r.choice([0, 0, 0, 1])]
        else:
            if r.random() < .3:
                new_setup()
            q = gen.fluo(gen.requests(state["cfg"], 2), r.choice([0, 0, 1, 2]), 1, 1, h="$X")
            q[2] = "$"
        w.query(q, HA, HB)

    def escape_story():
        """Fill the escape cache, change something, ask for the same again."""
        if r.random() < .8:
            D.call("E.escEnable", "LA", 1)
            state["esc"] = 1
        comp, eth, ith, nth, alpha, thick = a = esc_args()
        xs = subset(r, w.energies[:8], 2, 4)
        if isinstance(D.attempt("E.escUpdate", "LA", comp, xs, eth, ith, nth, alpha, thick), LibError):
            return
        w.log.append(["E.escUpdate", comp, xs, a[1:]])
        w.filled = True
        m = r.random()
        if m < .4:
            # another detector
            b = [dict(comp)] + a[1:]
            k = r.randrange(5)
            if k == 0:
                e = r.choice(sorted(comp))
                b[0][e] *= r.choice([.5, 1.5, 1.01])
            elif k == 1:
                others = [e for e in w.pool if e not in comp]
                b[0][r.choice(others)] = b[0].pop(r.choice(sorted(comp)))
            elif k == 2:
                b[2] = r.choice([0.0, ith * 100, ith * 1e4])
            elif k == 3:
                b[4] = r.choice([30., 89., 91.])
            else:
                b[5] = r.choice([0.0, 1e-3, .05]) if thick else r.choice([1e-3, .05])
            comp, eth, ith, nth, alpha, thick = b
            if r.random() < .3:
                # the new one takes the place of the old one for some energies
                D.attempt("E.escUpdate", "LA", comp, xs[:1], eth, ith, nth, alpha, thick)
        elif m < .85:
            update(r.choice(sorted(comp)))
        for x in xs:
            w.query(["E.escape", "$", comp, x, eth, ith, nth, alpha, thick], HA, HB)
        c.count("escape_stories")

    def detector_story():
        """A detector asked again after a change of it (a label names one state of the library)."""
        lb = r.choice(["", "s%d" % state["label"]])
        xs = subset(r, w.energies[:8], 2, 4)
        for x in xs:
            w.query(["det.escape", "$d", x, "$", lb, 0], HA, HA)
            w.filled = True
        k, again = r.randrange(8), 0
        if k < 2:
            comp = r.choice(dets)
            D.call("mat.new", "dm", "detmat", 1.0, 1.0, "")
            D.call("mat.compM", "dm", comp)
            cmd = ["det.matM", "$d", "dm"] if k else ["det.matS", "$d", r.choice(w.pool)]
        elif k == 2:
            cmd = ["det.minI", "$d", r.choice([0.0, 1e-3, 1e-2])]
        elif k == 3:
            cmd = ["det.minE", "$d", r.choice([.02, 1.0])]
        elif k == 4:
            cmd = ["det.nesc", "$d", r.randint(1, 8)]
        else:
            # other data under the same label: the cache has to be cleared or updated
            cmd = ["det.escClear", "$d"]
            if r.random() < .8:
                update(r.choice(w.pool))
            if r.random() < .4:
                cmd, again = ["det.diameter", "$d", 1.0], 1
        w.both(cmd, HA, HB)
        for h in ("dA", "dB") if 2 < k < 5 and r.random() < .3 else ():
            D.call("det.minI", h, 1e-6)
        D.call("det.escClear", "dB")
        for i, x in enumerate(xs):
            w.query(["det.escape", "$d", x, "$", lb, again if i == 0 else 0], HA, HB)
        c.count("detector_stories")

    for _ in range(steps):
        m = r.random()
        if m < .2:
            cache_op()
        elif m < .3:
            update()
            for _ in range(3):
                query()
        elif m < .42:
            escape_story()
        elif m < .5:
            detector_story()
        elif m < .505:
            D.call("E.copy", "tmpL", "LA")
            D.call("E.copy", "LA", "tmpL")
            D.call("E.del", "tmpL")
            c.count("copies")
        else:
            query()


def expect_cache(c, D, p, op, g, before, who):
    """The number of cached energies after an operation."""
    if isinstance(g, LibError) or isinstance(before, LibError):
        want = before
    elif op[0] == p + "cFill":
        want = min(len(set(op[-1])), 10000) if len(op[-1]) < 10000 else None
    elif op[0] == p + "cClear":
        want = 0
    elif op[0] == p + "cEnable":
        want = before
    elif op[0] == p + "cUpdate":
        got = D.attempt(p + "cSize", *who)
        if not before <= got <= min(10000, before + len(set(op[-1]))):
            c.fail(p + "cSize", "%s energies cached after %s, before %s" % (got, _j(op[:4]), before))
        return
    else:
        return
    got = D.attempt(p + "cSize", *who)
    if want is not None and not isinstance(want, LibError) and got != want:
        c.fail(p + "cSize", "%s energies cached after %s, expected %s" % (got, _j(op[:4]), want))


def element_update(r, e, h):
    m = r.random()
    s = r.choice([q for q in SHELLS if q in e.shells] or ["K"])
    if m < .3:
        b = {k: v * r.uniform(.97, 1.03) if v > 0 and r.random() < .5 else v for k, v in e.binding.items()}
        return ["el.bindm", h, b] if r.random() < .5 else ["el.bindv", h, list(b), list(b.values())]
    if m < .6:
        kind = "el.rad" if m < .45 else "el.non"
        t = shellgen.rad(r, s) if m < .45 else shellgen.non(r, s)
        return [kind + "m", h, s, dict(t)] if r.random() < .5 else [kind + "v", h, s, [k for k, v in t], [v for k, v in t]]
    if m < .75:
        return ["el.setConst", h, s, shellgen.consts(r, s)]
    if m < .87:
        t = usermu.supplied(r, e)
        return ["el.setMu", h] + [t[0], t[1], t[2], t[3], t[4] or [0.0] * len(t[0])]
    g = list(e.grid)
    return ["el.setPartial", h, s, g, [r.random() if x > e.binding.get(s, 0) > 0 else 0.0 for x in g]]


def element(c, D, r, lab, steps):
    """An element used directly."""
    w = World(c, D, r, lab)
    el = r.choice(w.pool)
    e = lab.R.el[el]
    w.energies += [energy(r, e, .5, 150.) for _ in range(8)]
    D.call("el.from", "eA", lab.h, el)
    D.call("el.from", "eB", lab.h, el)
    HA, HB = {"$": "eA"}, {"$": "eB"}
    on = D.call("el.cEnabled", "eA")
    for _ in range(steps):
        m = r.random()
        if m < .3:
            op = r.choice([["el.cEnable", "eA", 1], ["el.cFill", "eA", w.xs(1, 8)], ["el.cUpdate", "eA", w.xs(1, 8)], ["el.cClear", "eA"],
                           ["el.cFill", "eA", list(w.energies)], ["el.cEnable", "eA", 1], ["el.ccEnable", "eA", 1], ["el.ccFill", "eA"],
                           ["el.cEnable", "eA", 0], ["el.ccEnable", "eA", 1], ["el.ccEnable", "eA", 0], ["el.ccEmpty", "eA"]])
            before = D.attempt("el.cSize", "eA")
            g = D.attempt(*op)
            w.log.append(op[:3])
            c.count("cache_operations")
            if op[0] == "el.cEnable":
                on = op[2]
            expect_cache(c, D, "el.", op, g, before, ["eA"])
            if bool(D.call("el.cEnabled", "eA")) != bool(on):
                c.fail("el.cEnabled", "cache said to be %s after it was last set to %s and %s" % (not on, on, _j(op[:3])))
            if op[0] in ("el.cFill", "el.cUpdate", "el.ccFill") and not isinstance(g, LibError):
                w.filled = True
        elif m < .37:
            u = element_update(r, e, "$")
            w.both(u, HA, HB)
            c.count(u[0])
        elif m < .42:
            # filled, changed, asked again
            xs = subset(r, w.energies, 3, 6)
            D.call("el.cEnable", "eA", 1)
            on = 1
            for op in r.sample([["el.cFill", "eA", xs], ["el.cUpdate", "eA", xs], ["el.ccFill", "eA"], ["el.ccEnable", "eA", 1]], r.randint(1, 3)):
                D.attempt(*op)
            w.filled = True
            u = element_update(r, e, "$")
            w.both(u, HA, HB)
            for x in xs:
                w.query(r.choice([["el.exc", "$", x, 1.0], ["el.mu", "$", x], ["el.excv", "$", [x], []]]), HA, HB)
            s = u[2] if u[0] in ("el.radm", "el.radv", "el.nonm", "el.nonv", "el.setConst") else r.choice(SHELLS)
            w.query(["el.fromvac", "$", {s: 1.0}, 1, 1], HA, HB)
            c.count("element_stories")
        elif m < .45:
            D.call("el.copy", "tmp", "eA")
            D.call("el.copy", "eA", "tmp")
            c.count("copies")
        else:
            dist = {s: r.choice([1.0, r.random(), 0.0]) for s in subset(r, SHELLS, 1, 5)}
            q = r.choice([["el.mu", "$", w.x()], ["el.muv", "$", w.xs(1, 5)], ["el.exc", "$", w.x(), r.choice([1.0, .3])], ["el.excv", "$", w.xs(1, 4), r.choice([[], [2.0]])],
                          ["el.emitted", "$", w.x()], ["el.vac", "$", w.x()], ["el.fromvac", "$", dist, 1, 1], ["el.fromvac", "$", dist, r.randint(0, 1), r.randint(0, 1)],
                          ["el.cascade", "$", dist], ["el.partial", "$", w.x()], ["el.excited", "$", w.x()]])
            w.query(q, HA, HB)


def overflow(c, D, r, lab):
    """More energies than the cache of an element accepts."""
    w = World(c, D, r, lab)
    el = r.choice(w.pool)
    n = 10000 + r.choice([-1, 0, 1, 7])
    w.energies = [1.0 + 1e-3 * k for k in range(n)]
    D.call("el.from", "eA", lab.h, el)
    D.call("el.from", "eB", lab.h, el)
    D.call("el.cEnable", "eA", 1)
    D.call("el.cFill", "eA", w.energies[:r.choice([n, 5000])])
    D.call("el.cUpdate", "eA", w.energies)
    w.filled = True
    for x in w.energies[:2] + w.energies[4998:5003] + w.energies[-6:] + [w.energies[-1] + .5]:
        w.query(["el.mu", "$", x], {"$": "eA"}, {"$": "eB"})
        w.query(["el.exc", "$", x, .7], {"$": "eA"}, {"$": "eB"})
    c.count("overflowed_caches")


FILES = {"shell": [], "mu": []}


def prepare(c, lab):
    """Data files to replace the ones in use."""
    r = c.rng
    for kind in ("const", "rad", "non"):
        for main in "KLM":
            for k in range(2):
                scans = files.scans_constants(r, main, 100) if kind == "const" else files.scans_rates(r, main, 100, kind == "rad")
                FILES["shell"].append((kind, main, c.write("%s%s%d.dat" % (kind, main, k), files.spec(r, scans))))
    xcom = gendata.parse_spec(os.path.join(lab, "XCOM_CrossSections.dat"))
    for k in range(2):
        FILES["mu"].append(c.write("mu%d.dat" % k, files.spec(r, files.scans_mu(r, None, xcom, 92))))


def worker(c, i):
    r, D = c.rng, c.driver("asan" if i == 7 else "plain")
    mode = ["default", "pymca"][i // 2 % 2]
    lab = Lab(c, mode, handle="E", driver=D, dataseed=1 + c.seed % 3)
    for k in range(c.size(1 if i == 7 else 4, 10 if i == 7 else 60)):
        library(c, D, r, lab, c.size(150, 400))
        for j in range(c.size(2, 4)):
            element(c, D, r, lab, c.size(150, 300))
    if i < 2:
        overflow(c, D, r, lab)
    c.sample({"mode": mode})


def main(c):
    build.build("asan")
    build.build("plain")
    prepare(c, c.datadir(1 + c.seed % 3))
    c.fork(8, worker)


if __name__ == "__main__":
    Check("C05", RULE).run(main)
