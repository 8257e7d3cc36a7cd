"""C13: mass attenuation coefficients supplied by the user."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
RULE = ("histories of supplying random attenuation tables (with and without edges, edges displaced from the binding energies, with and without "
        "pair production, partial energy ranges, inconsistent ones) to elements, followed by queries of coefficients, vacancies, excitation and "
        "mixtures; other elements compared bit by bit; a case is one answered query after an update")


def supplied(r, e):
    """Energies and coefficients a user could supply for this element."""
    lo, hi = r.choice([(.01, 800.), (1., 500.), (1., 100.), (.5, 30.), (5., 60.), (.001, 900.)])
    grid = sorted(float("%.5g" % math.exp(r.uniform(math.log(lo), math.log(hi)))) for _ in range(r.randint(5, 40)))
    grid = sorted(set(grid))
    edges = {}
    if r.random() < .75:
        sh = r.choice([0, 0, 1e-3, -1e-3, .02, -.02])
        for s, b in e.binding.items():
            if max(lo * 1.2, .1) < b < hi / 1.2 and s in SHELLS and b not in [e.binding[q] for q in edges] and r.random() < .95:
                edges[s] = float("%.6g" % (b + sh * min(1, b * .1)))
    grid = [x for x in grid if all(abs(x - v) > 2e-3 * v for v in list(edges.values()) + list(e.binding.values()))]
    vals = sorted(set(edges.values()))
    if any(b - a < 5e-3 * b for a, b in zip(vals, vals[1:])):
        # edges too close to each other are not resolved by such tables
        keep, last = {}, 0
        for s, v in sorted(edges.items(), key=lambda kv: kv[1]):
            if v - last > 5e-3 * v:
                keep[s] = v
                last = v
        edges = keep
    if edges and sum(1 for x in grid if x > max(edges.values())) < 3:
        hi = max(edges.values())
        grid = sorted(grid + [hi * 1.2, hi * 1.5, hi * 2.3])
    full = sorted(grid + [v for v in edges.values() for _ in (0, 1)])
    photo, n, last = [], 0, None
    amp = r.uniform(.3, 3) * e.z ** 3.5 / 10
    for x in full:
        second = x == last
        last = x
        n = sum(1 for v in edges.values() if x > v or (x == v and second))
        photo.append(amp * (1 + n * n) * x ** -2.8 * (1 + .02 * r.random()))
    coh = [r.uniform(.5, 1.5) * .2 * e.z / (1 + x) for x in full]
    compt = [r.uniform(.5, 1.5) * .1 for x in full]
    pair = r.choice([[], [0.0] * len(full), [r.random() if x > 20 else 0.0 for x in full]])
    return full, photo, coh, compt, pair


def spoil(r, t):
    t = [list(x) for x in t]
    k = r.choice(["short photo", "short coh", "short compt", "long", "pair", "order", "empty"])
    if k == "short photo":
        t[1].pop()
    elif k == "short coh":
        t[2].pop()
    elif k == "short compt":
        t[3].pop()
    elif k == "long":
        t[r.randint(1, 3)].append(1.0)
    elif k == "pair":
        t[4] = [0.0] * r.choice([1, len(t[0]) - 1, len(t[0]) + 1])
    elif k == "order":
        i, j = 0, len(t[0]) - 1
        t[0][i], t[0][j] = t[0][j], t[0][i]
    else:
        t = [[], [], [], [], []]
    return k, t


def work(c, w):
    r, D = c.rng, c.driver()
    for mode in ("default", "pymca"):
        lab = Lab(c, mode, driver=D, handle="E" + mode)
        R = lab.R
        mix = {"Fe": .4, "Pb": .1, "SiO2": .5}
        touched = set()
        for k in range(c.size(45, 700)):
            el = r.choice(R.order[:98]) if r.random() < .8 or not touched else r.choice(sorted(touched))
            e = R.el[el]
            t = supplied(r, e)
            way = None
            if r.random() < .25:
                way, t = spoil(r, t)
            others = subset(r, [x for x in R.order if x != el], 4, 4)
            probes = [energy(r, R.el[o], .05, 300.) for o in others]
            qs = [["E.mu", lab.h, o, x] for o, x in zip(others, probes)] + [["E.muall", lab.h, o] for o in others] + [["E.exc", lab.h, o, x, 1.0] for o, x in zip(others, probes)]
            if way:
                qs += [["E.muall", lab.h, el], ["E.mu", lab.h, el, 12.3]]
            before = batch(c, D, qs)
            cmd = ["E.setMu", lab.h, el] + list(t)
            c.context = [mode, el, way, t]
            g = D.attempt(*cmd)
            w = attempt(R.set_mu, el, *t)
            judge(c, cmd[:3], g, w, "update")
            after = batch(c, D, qs)
            for q, a, b in zip(qs, before, after):
                c.expect(str(a) == str(b), "untouched", "%s changes although %s" % (_j(q), "the update was refused" if way else "another element was updated"))
            c.count("untouched_answers", len(qs))
            if way:
                c.case((mode, el, way, k), "refused")
                continue
            touched.add(el)
            c.count("updates")
            # what was supplied
            grid, photo, coh, compt, pair = t
            pair = pair or [0.0] * len(grid)
            e = R.el[el]
            tab = D.attempt("E.muall", lab.h, el)
            for q in ("energy", "coherent", "compton", "pair", "photoelectric"):
                c.same(tab.get(q) if not isinstance(tab, LibError) else tab, e.mu[q] if q != "energy" else e.grid, "table", "table of %s: %s " % (el, q), 1e-9, 1e-300)
            cmds, want = [], []
            for i, x in enumerate(grid):
                if (i and grid[i - 1] == x) or (i + 1 < len(grid) and grid[i + 1] == x) or x not in e.grid or away(e, x) != x or x in e.binding.values():
                    continue
                # tabulated energies give the supplied values back
                g = D.attempt("E.mu", lab.h, el, x)
                if isinstance(attempt(e.coeffs, x), RefError):
                    continue
                w = {"coherent": coh[i], "compton": compt[i], "pair": pair[i]}
                c.same({q: g[q] for q in w} if not isinstance(g, LibError) else g, w, "supplied", "%s at %r keV " % (el, x), 1e-8, 1e-300)
                c.case((mode, el, k, i), "supplied_points")
            for i in range(8):
                x = away(e, energy(r, e, .02, 400.))
                mixed = all(away(R.el[s], x) == x for s in ("Fe", "Pb", "Si", "O"))
                for q, f in ((["E.mu", lab.h, el, x], lambda: e.coeffs(x)), (["E.vac", lab.h, el, x], lambda: e.vacancy(x)),
                             (["E.exc", lab.h, el, x, 1.0], lambda: e.exc(x, 1.0)), (["E.mum", lab.h, mix, x, 0], lambda: R.mu(mix, x))):
                    if q[0] == "E.mum" and not mixed:
                        continue
                    ref.ILL[0] = 0
                    w = attempt(f)
                    cmds.append(q)
                    want.append((w, bool(ref.ILL[0])))
            for q, g, (w, ill) in zip(cmds, batch(c, D, cmds), want):
                c.context = [mode, el, k, q]
                if ill:
                    # extrapolated from two almost coincident points: only a rejection would differ
                    c.count("ill_conditioned")
                    continue
                judge(c, q, g, w, q[0].split(".")[1], 1e-8, 1e-300)
                c.case((mode, el, k, _j(q)), q[0].split(".")[1])
        c.sample({"mode": mode, "element": el, "supplied energies": t[0][:20]})
        g = D.attempt("E.setMu", lab.h, "Xx", [1.0, 2.0], [1.0, 1.0], [1.0, 1.0], [1.0, 1.0], [])
        c.expect(isinstance(g, LibError), "unknown", "unknown element accepted")
        D.call("E.del", lab.h)


def main(c):
    c.spread(work)


if __name__ == "__main__":
    Check("C13", RULE).run(main)
