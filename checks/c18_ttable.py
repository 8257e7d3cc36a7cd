"""C18: transmission tables interpolate between given points only."""
import sys, os, bisect
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
RULE = ("random tables given as lists or maps, with repeated energies, single points and none, replaced several times, with refused ones in between; "
        "after each the table is read back and probed on, beside, between and outside the points; a case is one probe")


def value(pts, x):
    if not pts:
        return 1.0
    if x <= pts[0][0]:
        return pts[0][1]
    if x >= pts[-1][0]:
        return pts[-1][1]
    i = bisect.bisect_right([p[0] for p in pts], x)
    (x1, y1), (x2, y2) = pts[i - 1], pts[i]
    f = (x - x1) / (x2 - x1)
    return f * y2 + (1 - f) * y1


def work(c, w):
    r, D = c.rng, c.driver()
    for run in range(c.size(900, 8000)):
        named = r.random() < .3
        D.call("tt.new", "t", "filter" if named else "", "note" if named else "")
        name, comment = ("filter", "note") if named else ("", "")
        pts = [(0.0, 1.0)]
        for step in range(r.randint(1, 6)):
            m = r.random()
            if m < .1:
                # names can be given apart from the values, and tables handed over
                name = r.choice(["renamed", "", "a b"])
                D.call("tt.name", "t", name)
            elif m < .2:
                comment = r.choice(["re commented", ""])
                D.call("tt.comment", "t", comment)
            elif m < .25:
                D.call("tt.copy", "u", "t")
                D.call("tt.setVec", "t", [1.0, 2.0], [.1, .2], "", "")
                D.call("tt.copy", "t", "u")
            elif m < .3:
                D.call("tt.new", "u", "other", "other")
                D.call("tt.assign", "u", "t")
                D.call("tt.setVec", "t", [1.0, 2.0], [.1, .2], "", "")
                D.call("tt.assign", "t", "u")
            n = r.choice([0, 1, 2, 3, 4, 8, 30])
            es = sorted(r.choice([r.uniform(0, 60), float(r.randint(0, 30)), 0.0]) for _ in range(n))
            ts = [r.choice([0.0, 1.0, r.random(), r.random(), 10 ** r.uniform(-12, 0), r.uniform(1, 3)]) for _ in range(n)]
            for k in range(1, n):
                if r.random() < .15:
                    es[k] = es[k - 1]
            # at most two values at one energy, and steps that do not overtake their neighbours
            keep = [k for k in range(n) if not (k >= 2 and es[k] == es[k - 2]) and not (k and 0 < es[k] - es[k - 1] < 1e-5)]
            es, ts = [es[k] for k in keep], [ts[k] for k in keep]
            n = len(es)
            bad = r.choice([None, None, None, "negE", "negT", "order", "size"]) if n else None
            nm, cm = "", ""
            if r.random() < .3:
                nm = r.choice(["new name", ""])
                cm = r.choice(["a comment", ""])
            form = r.choice(["vec", "vec", "map"])
            E, T = list(es), list(ts)
            ok = True
            if bad == "negE":
                k = 0
                E[k] = -r.uniform(1e-6, 5)
                ok = False
            elif bad == "negT":
                T[r.randrange(n)] = -r.uniform(1e-9, 1)
                ok = False
            elif bad == "order" and form == "vec" and n > 1 and E[0] != E[-1]:
                k = next(k for k in range(1, n) if E[k] != E[k - 1])
                E[k], E[k - 1] = E[k - 1], E[k]
                ok = False
            elif bad == "size" and form == "vec":
                T = T[:-1] if r.random() < .5 else T + [0.5]
                ok = False
            if (nm and name) or (cm and comment):
                ok = False
            if form == "vec":
                cmd = ["tt.setVec", "t", E, T, nm, cm]
                new = {}
                if ok:
                    for x, y in zip(E, T):
                        new[x + 1e-6 if x in new else x] = y
            else:
                new = dict(zip(E, T))
                if bad == "negT" and not any(v < 0 for v in new.values()):
                    ok = not ((nm and name) or (cm and comment))
                cmd = ["tt.setMap", "t", [[k, v] for k, v in new.items()], nm, cm]
            c.context = cmd
            g = D.attempt(*cmd)
            c.expect(isinstance(g, LibError) != ok, "set" + (":refused" if ok else ":accepted"), "%s %s" % (_j(cmd), "is refused: %s" % g if ok else "is accepted"))
            if ok:
                pts = sorted(new.items())
                name, comment = nm or name, cm or comment
            else:
                c.count("refused")
            g = D.attempt("tt.get", "t")
            c.same([g[0], g[1], sorted([float(k), v] for k, v in g[2].items())] if not isinstance(g, LibError) else g, [name, comment, [list(p) for p in pts]], "content",
                   "content after %s " % _j(cmd), 1e-14)
            probes = [r.uniform(0, 70) for _ in range(4)] + [0.0, 1e-9, 1000.0, -1.0]
            for k in r.sample(range(len(pts)), min(6, len(pts))):
                x = pts[k][0]
                probes += [x, math.nextafter(x, 1e9), math.nextafter(x, -1e9), x + 5e-7]
                if k + 1 < len(pts):
                    probes.append(.5 * (x + pts[k + 1][0]))
            want = [value(pts, x) for x in probes]
            got = D.batch([["tt.at", "t", x] for x in probes] + [["tt.atv", "t", probes]])
            for x, g, w in zip(probes, got, want):
                c.same(g, w, "value", "transmission at %r of %s " % (x, _j(pts)), 1e-9, 1e-15)
                if pts:
                    lo, hi = min(p[1] for p in pts), max(p[1] for p in pts)
                    c.expect(lo * (1 - 1e-12) <= g <= hi * (1 + 1e-12), "bounds", "transmission at %r is %r, outside the values of %s" % (x, g, _j(pts)))
                # model-free: exact values on the points
                for p in pts:
                    if p[0] == x:
                        c.expect(g == p[1], "exact", "transmission at the point %r is %r of %s" % (x, g, _j(pts)))
                c.case((run, step, x), "probes")
            c.same(got[-1], got[:-1], "list", "list query of %s " % _j(pts), 0.0)
        c.sample({"table": pts})


def main(c):
    c.spread(work)


if __name__ == "__main__":
    Check("C18", RULE).run(main)
