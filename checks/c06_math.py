"""C06: accuracy of the special functions and attenuation integrals."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import refxrf
from scipy.special import exp1, expi, expn, erf as serf, erfc as serfc
from scipy.integrate import quad
RULE = ("arguments log-uniform over the whole domain plus branch points (1, -50, thresholds of the thin/thick approximations); values "
        "compared with scipy's special functions, with the published closed forms and with direct numerical integration; a case is one "
        "evaluated argument tuple, all are non-trivial")


def num(g):
    return isinstance(g, (int, float)) and not isinstance(g, bool)


def L0_int(m1, m2, mj, d):
    f = lambda u: float(exp1(mj * u)) * math.exp(-m1 * u) * -math.expm1(-(m1 + m2) * (d - u))
    # substitution u = top t^3 to tame the logarithm at the origin; nothing is left beyond 60 mean free paths
    top = min(d, 60.0 / (m1 + mj))
    g = lambda t: 3 * top * t * t * f(top * t ** 3) if t > 0 else 0.0
    v, e = quad(g, 0, 1, epsabs=0, epsrel=1e-9, limit=300)
    return v / (m1 + m2), e / (m1 + m2)


def X_int(p, q, d1, d2, a, c, b):
    def f(t):
        x = (q - a * t) * d1
        k1 = d1 if abs(x) < 1e-12 else math.expm1(x) / (q - a * t)
        k2 = -math.expm1(-(p + c * t) * d2) / (p + c * t)
        return math.exp(-b * t) / t * k1 * k2
    g = lambda s: f(1.0 / s) / (s * s)
    pts = sorted(set(min(1.0, z) for z in (1e-6, 1e-4, 1e-3, 1e-2, .1, .3)))
    v = e = 0.0
    lo = 0.0
    for hi in pts + [1.0]:
        if hi > lo:
            q1, e1 = quad(lambda s: g(s) if s > 0 else 0.0, lo, hi, epsabs=0, epsrel=1e-8, limit=200)
            v, e, lo = v + q1, e + e1, hi
    return v, e


def work(c, w):
    r, D = c.rng, c.driver()
    N = c.size(3, 15)

    def bulk(fn, xs):
        got = D.batch([["math.bulk", [[fn] + list(x) for x in xs[k:k + 500]]] for k in range(0, len(xs), 500)])
        return [v for g in got for v in g]

    def compare(fn, xs, want, rel, ab=lambda *x: 0.0, key=None):
        for x, g in zip(xs, bulk(fn, xs)):
            w = want(*x)
            if w is None:
                continue
            c.context = [fn, x]
            c.expect(num(g) and abs(g - w) <= rel * abs(w) + ab(*x), key or fn, "%s%r = %r, expected %r" % (fn, tuple(x), g, w))
            c.case((fn, x), key or fn)
        c.sample({"function": fn, "arguments": xs[-1], "value": g, "expected": w}, 12)

    def err(fn, x):
        g = bulk(fn, [x])[0]
        c.expect(not num(g), fn + "-domain", "%s%r must be rejected but gave %r" % (fn, tuple(x), g))
        c.case((fn, x), "rejected")
    LU = lambda lo, hi: 10 ** r.uniform(lo, hi)
    edge = [1.0, math.nextafter(1, 2), math.nextafter(1, 0), 0.5, 2.0, 1e-12, 10.0, 20.0, 49.999, 50.0, 50.001]
    pos = [(x,) for x in edge] + [(LU(-8, 2.7),) for _ in range(6000 * N)] + [(r.uniform(.8, 1.3),) for _ in range(300 * N)]
    compare("E1", pos, lambda x: float(exp1(x)), 1e-6)
    neg = [(-x[0],) for x in pos]
    # at its zero (x = -0.3725) only the absolute error makes sense
    compare("E1", neg, lambda x: -float(expi(-x)) if x > -600 else None, 1e-6, lambda x: 1e-9, "E1-negative")
    compare("D", pos, lambda x: math.exp(x) * float(exp1(x)) if x < 600 else refxrf.D(x), 1e-6)
    compare("D", neg, lambda x: refxrf.D(x), 1e-6, lambda x: 1e-9, "D-negative")
    compare("D", [(LU(2, 12) * r.choice([1, -1]),) for _ in range(300)], lambda x: refxrf.D(x), 1e-6, key="D-large")

    def En_mag(n, x):
        m = float(exp1(x))
        for k in range(1, n):
            m = (math.exp(-x) + x * m) / k
        return m
    xs = [(n, LU(-6, 1.3)) for n in (1, 2, 3, 4, 5, 6) for _ in range(150 * N)]
    compare("En", xs, lambda n, x: float(expn(n, x)), 0.0, lambda n, x: 1e-6 * En_mag(n, x))
    compare("En", [(n, 0.0) for n in range(2, 12)], lambda n, x: 1.0 / (n - 1), 1e-15, key="En0")
    xs = [(r.uniform(-6, 6),) for _ in range(700 * N)] + [(0.0,), (1.0,), (-1.0,), (30.0,), (-30.0,)]
    compare("erf", xs, lambda x: float(serf(x)), 0, lambda x: 5e-7)
    compare("erfc", [x for x in xs if x[0] <= 0], lambda x: float(serfc(x)), 5e-7, key="erfc-negative")
    compare("erfc", [x for x in xs if x[0] >= 0] + [(r.uniform(6, 20),) for _ in range(100)], lambda x: float(serfc(x)), 1e-6)
    xs = [(LU(-2, 2), LU(-4, 0), r.random(), LU(-4, -1)) for _ in range(200 * N)] + [(5.9, 0.0, .12, .00385), (0.0, .1, .1, .1)]
    compare("fwhm", xs, lambda e, n, f, q: math.sqrt(n * n + 2.3548 ** 2 * e * f * q), 1e-9)
    nan, inf = float("nan"), float("inf")
    for x, n, f in [(nan, 0, 0), (inf, 1, 0), (-inf, 1, 0), (0.0, 1, 1), (1.7976931348623157e308, 1, 1), (-1.7976931348623157e308, 1, 1), (5e-324, 1, 1)]:
        a, b = bulk("isn", [(x,)])[0], bulk("isf", [(x,)])[0]
        c.expect(bool(a) == bool(n) and bool(b) == bool(f), "classify", "isNumber/isFinite of %r: %r %r" % (x, a, b))
        c.case(("cls", repr(x)), "classify")
    err("E1", (0.0,))
    for n in (0, -1, -7):
        err("En", (n, 1.0))
    # intralayer integral
    def l0args(k):
        m1, m2, mj = [LU(-1, 4), LU(-1, 4), LU(-1, 4)] if r.random() < .6 else [LU(-3, 5), LU(-3, 5), LU(-3, 5)]
        if k % 7 == 0:
            m2 = m1
        if k % 5 == 0:
            mj = m2 * r.choice([1.5, .7, 1.001, .999, 1.2])
        s = LU(-2.5, 1.5) if r.random() < .6 else LU(-2, 4)
        if k % 11 == 0:
            s = r.choice([0.0099, 0.0101, 9.99, 10.01])
        rho = LU(-1, 1)
        return (m1, m2, mj, rho, s / (m1 + m2) / rho)
    xs = [l0args(k) for k in range(6000 * N)]
    tol = {}

    def l0(m1, m2, mj, rho, t):
        s = (m1 + m2) * rho * t
        if abs(s - 10) < 1e-6 or abs((m1 + mj) * rho * t - 10) < 1e-6 or abs(s - .01) < 1e-9:
            return None
        v, mag = refxrf.L0(m1, m2, mj, rho * t)
        tol[(m1, m2, mj, rho, t)] = mag
        return v
    compare("L0", xs, l0, 1e-9, lambda *x: 1e-6 * tol[x])
    sel = [x for x in xs if (x[0] + x[1]) * x[3] * x[4] > .0101][:c.size(1500, 20000)]
    for x, g in zip(sel, bulk("L0", sel)):
        v, e = L0_int(x[0], x[1], x[2], x[3] * x[4])
        s = (x[0] + x[1]) * x[3] * x[4]
        # beyond 10 mean free paths the infinite thickness limit is used
        a = 1e-3 * abs(v) + 1e-6 * tol.get(x, 0.0) + 10 * e
        c.expect(num(g) and abs(g - v) <= a, "L0-integral", "L0%r = %r, the integral is %r" % (x, g, v))
        c.case(("L0i", x), "L0-integral")
    for k in range(5):
        x = list(l0args(k))
        x[r.randrange(3)] = r.choice([0.0, -1.0, -1e-9])
        err("L0", tuple(x))
        x = list(l0args(k))
        x[r.randrange(3)] = r.choice([nan, inf])
        err("L0", tuple(x))
    # interlayer integral
    def xargs(k):
        m1, m2 = [LU(-1, 3.5), LU(-1, 3.5)] if r.random() < .6 else [LU(-3, 5), LU(-3, 5)]
        a1, a2, b = LU(-2.5, 1.2 if r.random() < .7 else 2.2), LU(-2.5, 1.2 if r.random() < .7 else 2.2), r.choice([0.0, 0.0, LU(-3, .7)])
        p, q = m2 * LU(-1.5, 1.5), m1 * LU(-1.5, 1.5)
        if k % 2:
            p, q = -p, -q
            if abs(p + m2) < 1e-3 * m2:
                p *= 1.01
        elif abs(q - m1) < 1e-3 * m1:
            q *= 1.01
        return (p, q, a1 / m1, a2 / m2, m1, m2, b)
    xs = [xargs(k) for k in range(4000 * N)]

    def xref(*x):
        v, mag = refxrf.X(*x)
        tol[x] = mag
        return v
    ok = lambda x: abs((x[1] - x[4]) * x[2]) < 200 and abs((x[0] + x[5]) * x[3]) < 200
    xs = [x for x in xs if ok(x)]
    compare("X", xs, xref, 1e-9, lambda *x: 1e-6 * tol[x])
    xtol = dict(tol)
    vs = [(x[0], x[1], r.choice([0.0, x[2]]), r.choice([0.0, x[3]]), x[4], x[5], x[6]) for x in xs[:1500 * N]]

    def vref(*x):
        v, mag = refxrf.V(*x)
        tol[x] = mag
        return v
    compare("V", vs, vref, 1e-9, lambda *x: 1e-6 * tol[x])
    n = 0
    for x, g in zip(xs, bulk("X", xs)):
        if n >= c.size(700, 9000):
            break
        if abs(x[1] * x[2]) > 30 or abs(x[0] * x[3]) > 30:
            continue
        v, e = X_int(*x)
        n += 1
        c.expect(num(g) and abs(g - v) <= 1e-3 * abs(v) + 2e-6 * xtol[x] + 10 * e, "X-integral", "X%r = %r, the integral is %r (%g)" % (x, g, v, xtol[x]))
        c.case(("Xi", x), "X-integral")
    c.sample({"X": xs[-1], "value": g})


def main(c):
    c.spread(work)


if __name__ == "__main__":
    Check("C06", RULE).run(main)
