"""C17: a beam keeps every ray, sorted and normalised."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
RULE = ("random lists of energies (unsorted, repeated), weights, flags and divergences of every length combination given to beams in every form, "
        "several assignments per beam, accepted and refused; after each the rays are read back; a case is one assignment")


def work(c, w):
    r, D = c.rng, c.driver()
    BIG = [1, 2, 3, 5, 16, 17, 18, 40, 200]

    def listing(n, f):
        m = r.random()
        if m < .2:
            return []
        if m < .4:
            return [f()]
        if m < .85 or n == 0:
            return [f() for _ in range(n)]
        if m < .93:
            return [f() for _ in range(n + r.randint(1, 3))]
        return [f() for _ in range(r.randint(0, max(0, n - 1)))]

    def rays(n, es, ws, cs, ds):
        def at(l, i, d):
            return l[i] if len(l) > 1 else (l[0] if l else d)
        out = [[es[i], at(ws, i, 1.0), at(cs, i, 1), at(ds, i, 0.0)] for i in range(n)]
        t = math.fsum(x[1] for x in out)
        if t > 0:
            for x in out:
                x[1] /= t
        return out

    def check(h, want, what):
        for get in ("beam.get", "beam.rays"):
            g = D.attempt(get, h)
            if isinstance(g, LibError):
                c.fail("raised", "%s after %s raised %s" % (get, what, g))
                continue
            if get == "beam.get":
                c.expect(len(g) == 4 and len({len(x) for x in g}) == 1, "shape", "%s after %s gives lists of lengths %s" % (get, what, [len(x) for x in g]))
                g = [list(x) for x in zip(*g)]
            else:
                g = [list(x) for x in g]
            es = [x[0] for x in g]
            c.expect(es == sorted(es), "order", "%s after %s: energies are not sorted %s" % (get, what, _j(es)))
            c.same(sorted(g, key=lambda x: (x[0], x[2], x[3], x[1])), sorted(want, key=lambda x: (x[0], x[2], x[3], x[1])), "rays",
                   "%s after %s " % (get, what), 1e-12, 1e-300)
            if want and math.fsum(x[1] for x in want) > 0:
                s = math.fsum(x[1] for x in g)
                c.expect(abs(s - 1) < 1e-9, "sum", "weights add up to %r after %s" % (s, what))
            c.count("rays_compared", len(g))

    for run in range(c.size(2000, 15000)):
        D.call("beam.new", "b")
        cur = []
        if run % 5 == 0:
            check("b", [], "construction")
        for step in range(r.randint(1, 8)):
            n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7]) if r.random() < .85 else r.choice(BIG)
            pool = [r.uniform(1, 80) for _ in range(max(1, r.randint(1, n + 1)))]
            es = [r.choice(pool) if r.random() < .5 else r.choice([r.uniform(.1, 150), float(r.randint(1, 60))]) for _ in range(n)]
            if es and r.random() < .25:
                # energies that differ by almost nothing
                es = [x if r.random() < .5 else r.choice(es) * (1 + r.choice([-1, 1]) * 10 ** r.uniform(-15, -3)) for x in es]
            m = r.random()
            if m < .2:
                es.sort()
            elif m < .3:
                es.sort(reverse=True)
            ws = listing(n, lambda: r.choice([1.0, r.uniform(0, 1), 10 ** r.uniform(-8, 8), 0.0, float(r.randint(1, 9))]))
            cs = listing(n, lambda: r.choice([0, 1, 1, 2, 7]))
            ds = listing(n, lambda: r.choice([0.0, r.uniform(0, 3), r.uniform(-1, 1)]))
            form = r.choice(["set", "set", "set", "set1", "raw", "single", "copy"])
            ok = True
            if form == "set":
                cmd = ["beam.set", "b", es, ws, cs, ds]
                ok = all(len(l) <= 1 or len(l) >= n for l in (ws, cs, ds))
                want = rays(n, es, ws, cs, ds) if ok else cur
            elif form == "raw":
                if n == 0:
                    continue
                f = lambda l: l[:n] if len(l) >= n else None
                w, ch, dv = f(ws), f(cs), f(ds)
                cmd = ["beam.setRaw", "b", es, w, ch, dv, r.randint(0, 1)]
                def at(l, i, d):
                    return d if l is None else l[i]
                want = rays(n, es, [at(w, i, 1.0) for i in range(n)], [at(ch, i, 1) for i in range(n)], [at(dv, i, 0.0) for i in range(n)])
            elif form == "single":
                e, d = r.uniform(1, 90), r.choice([0.0, r.uniform(0, 2)])
                cmd = ["beam.single", "b", e, d]
                want = [[e, 1.0, 1, d]]
            elif form == "copy":
                # an assigned copy keeps its rays when the original changes
                D.call("beam.copy", "b2", "b")
                D.attempt("beam.set", "b2", [3.0, 1.0], [1.0, 2.0], [], [])
                cmd, want = ["beam.copy", "b2", "b"], cur
            else:
                cmd, want = ["beam.set1", "b", es], rays(n, es, [], [], [])
            c.context = cmd
            g = D.attempt(*cmd)
            c.expect(isinstance(g, LibError) != ok, form + (":refused" if ok else ":accepted"), "%s %s" % (_j(cmd), "is refused: %s" % g if ok else "is accepted"))
            cur = want
            check("b", cur, _j(cmd))
            c.case((run, step), form + ("" if ok else "_refused"))
        c.sample({"rays": cur})


def main(c):
    c.spread(work)


if __name__ == "__main__":
    Check("C17", RULE).run(main)
