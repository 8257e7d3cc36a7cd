"""Reference model of the X-ray fluorescence emission of a layered sample."""
import math
from scipy.special import exp1, expi
from ref import RefError, SHELLS


def D(x):
    """exp(x) * E1(x), real part for x < 0."""
    if x > 0:
        if x < 40:
            return math.exp(x) * float(exp1(x))
    elif x > -40:
        return -math.exp(x) * float(expi(-x))
    s = t = 1.0
    for n in range(1, 40):
        t *= -n / x
        s += t
    return s / x


def loga(x):
    return math.log(abs(x))


def L0(m1, m2, mj, d):
    """(value, magnitude of its terms): intralayer integral, one direction.

    Same conventions as the published expression; thin targets neglected."""
    s = (m1 + m2) * d
    if s > 10 and (m1 + mj) * d > 10:
        v = (mj / m1) * math.log1p(m1 / mj) / ((m1 + m2) * mj)
        # log(1 + x) for tiny x
        return v, v * max(1.0, 1e-9 * mj / m1)
    if s < 0.01:
        return 0.0, 0.0
    a = D((mj - m2) * d) / (m2 * (m1 + m2))
    b = -D(mj * d) / (m1 * m2)
    c = D((mj + m1) * d) / (m1 * (m1 + m2))
    f = math.exp(-(m1 + mj) * d)
    g = math.log1p(m1 / mj) / (m1 * (m1 + m2))
    h = math.exp(-s) / (m2 * (m1 + m2)) * loga(1 - m2 / mj)
    v = f * (a + b + c) + g + h
    return v, f * (abs(a) + abs(b) + abs(c)) + abs(g) * max(1.0, 1e-9 * mj / m1) + abs(h) * max(1.0, 1e-9 * mj / m2)


def _dscale(x):
    """Magnitude to which an absolute error of a few 1e-7 of D(x) is relative."""
    return max(abs(D(x)), math.exp(x) if 0 < x < 1 else 0.0)


def V(p, q, d1, d2, m1, m2, b):
    if b == 0 and d1 == 0 and d2 == 0:
        k = p * m1 + q * m2
        u = -(m2 / p) * loga(1 + p / m2) / k
        w = -(m1 / q) * loga(1 - q / m1) / k
        return u + w, abs(u) + abs(w)
    t = m1 * d1 + b + m2 * d2
    k = p * m1 + q * m2
    c1, x1 = m2 / (p * k), (1 + p / m2) * t
    c2, x2 = m1 / (q * k), (1 - q / m1) * t
    c3 = -1.0 / (p * q)
    f = math.exp((q - m1) * d1 - (p + m2) * d2 - b)
    v = f * (c1 * D(x1) + c2 * D(x2) + c3 * D(t))
    return v, f * (abs(c1) * _dscale(x1) + abs(c2) * _dscale(x2) + abs(c3) * _dscale(t))


def X(p, q, d1, d2, m1, m2, b):
    vs = [V(p, q, d1, d2, m1, m2, b), V(p, q, d1, 0.0, m1, m2, b), V(p, q, 0.0, d2, m1, m2, b), V(p, q, 0.0, 0.0, m1, m2, b)]
    return vs[0][0] - vs[1][0] - vs[2][0] + vs[3][0], sum(v[1] for v in vs)


# layers, filters: {"comp": {el: fraction}, "density":, "thickness":, "funny":}
def transmission(R, layer, x, angle=90.0, mu=None):
    rt = layer["density"] * layer["thickness"]
    if not rt > 0:
        raise RefError("layer")
    s = 1.0 if angle == 90 else abs(math.sin(math.radians(angle)))
    if mu is None:
        mu = R.mu(layer["comp"], x)["total"]
    f = layer.get("funny", 1.0)
    return (1 - f) + f * math.exp(-rt * mu / s)


def table(points, x):
    """points: sorted [(E, T)]; log-linear style interpolation is not assumed."""
    raise NotImplementedError


def geff(cfg, i):
    d = cfg["detector"]
    diam, dist = d.get("diameter", 0.0), d.get("distance", 10.0)
    if diam == 0:
        return 1.0
    if dist == 0 and i == 0:
        return 0.5
    so = math.sin(math.radians(cfg["alphaOut"]))
    ref = cfg.get("ref", 0)
    for k in range(ref, i):
        dist += cfg["sample"][k]["thickness"] / so
    for k in range(i, ref):
        dist -= cfg["sample"][k]["thickness"] / so
    return 0.5 * (1 - dist / math.hypot(dist, 0.5 * diam))


def threshold(R, el, fam):
    b = R.el[el].binding
    if fam == "K" or len(fam) == 2:
        return b.get(fam, 0.0)
    for s in [s for s in reversed(SHELLS) if s[0] == fam]:
        if b.get(s, 0.0) > 0:
            return b[s]
    return 0.0


def in_family(line, fam):
    if fam == "Ka":
        return line.startswith("KL")
    if fam == "Kb":
        return line[0] == "K" and line[1] != "L"
    return line.startswith(fam)


class Memo(object):
    """Per-run memo of the pure element functions."""
    def __init__(self, R):
        self.R, self.c, self.e, self.m = R, {}, {}, {}

    def coeffs(self, el, x):
        k = (el, x)
        if k not in self.c:
            self.c[k] = self.R.el[el].coeffs(x)
        return self.c[k]

    def exc(self, el, x):
        k = (el, x)
        if k not in self.e:
            self.e[k] = self.R.el[el].exc(x, 1.0)
        return self.e[k]

    def mu(self, comp, x, key="total"):
        t = sum(comp.values())
        return sum(f / t * self.coeffs(el, x)[key] for el, f in comp.items())


def multilayer(R, cfg, req, secondary=0, use_geo=1, use_mass=1, limit=0.0, interp=None, memo=None):
    """req: [(element, family, layer)].  Returns {key: {layer: {line: {...}}}}
    plus, per line, "_tol": absolute uncertainty of its secondary rate."""
    M = memo or Memo(R)
    rad = math.radians
    si, so = math.sin(rad(cfg["alphaIn"])), math.sin(rad(cfg["alphaOut"]))
    S = cfg["sample"]
    n = len(S)
    rt = [l["density"] * l["thickness"] for l in S]
    comp = [l["comp"] for l in S]
    out = {}
    det = cfg["detector"]
    hasdet = bool(det.get("comp"))
    near = set()

    def trans(l, x, angle):
        return transmission(R, l, x, angle, M.mu(l["comp"], x))

    rays = []
    for e, w in cfg["beam"]:
        for f in cfg.get("filters", []):
            w *= trans(f, e, 90.0)
        for t in cfg.get("ufilters", []):
            w *= interp(t, e)
        rays.append((e, w))
    eff_cache, esc_cache = {}, {}

    def efficiency(i, x):
        if (i, x) not in eff_cache:
            v = 1.0
            for k in range(i):
                v *= trans(S[k], x, cfg["alphaOut"])
            for a in cfg.get("attenuators", []):
                v *= trans(a, x, 90.0)
            for t in cfg.get("uattenuators", []):
                v *= interp(t, x)
            if use_geo:
                v *= geff(cfg, i)
            if hasdet and det["density"] > 0 and det["thickness"] > 0:
                v *= 1.0 - trans(det, x, 90.0)
            eff_cache[(i, x)] = v
        return eff_cache[(i, x)]

    def escapes(x):
        if not hasdet:
            return {}
        if x not in esc_cache:
            esc_cache[x], nr = R.escape(det["comp"], x, det.get("ith", 1e-7), det.get("alpha", 90.0), 0.0)
            near.update(nr)
        return esc_cache[x]

    for e0, w0 in rays:
        mu0 = [M.mu(c, e0) for c in comp]
        lw, acc = [], 0.0
        for i in range(n):
            lw.append(math.exp(-acc))
            acc += rt[i] * mu0[i] / si
        sources = []
        if secondary > 0:
            for j in range(n):
                src = []
                for el, f in comp[j].items():
                    el_exc = M.exc(el, e0)
                    b = R.el[el].binding
                    for line, d in el_exc.items():
                        sh = line[:1] if line[0] == "K" else line[:2]
                        if not (e0 > b.get(sh, 0.0) > 0 and R.el[el].shells[sh].const["omega"] > 0):
                            continue
                        if d["rate"] * f <= 0 or (limit > 0 and d["rate"] < limit):
                            continue
                        src.append((d["energy"], d["rate"] * f * w0 * lw[j], "%s %s %02d" % (el, line, j)))
                src.append((e0, w0 * lw[j] * M.mu(comp[j], e0, "coherent"), "coherent scattering %02d" % j))
                sources.append(src)
        for el, fam, lsel in req:
            if fam == "":
                raise RefError("family")
            thr = threshold(R, el, fam[0])
            if thr > e0:
                continue
            lines = {l: d for l, d in M.exc(el, e0).items() if in_family(l, fam) and d["factor"] * w0 > 0}
            for i in range(n):
                if lsel >= 0 and lsel != i:
                    continue
                frac = comp[i].get(el, 0.0)
                mf = frac if use_mass else 1.0
                if mf == 0.0:
                    continue
                for line, d in lines.items():
                    ei = d["energy"]
                    mui = M.mu(comp[i], ei)
                    chi = mu0[i] / si + mui / so
                    prim = d["rate"] * w0 * mf / si * (-math.expm1(-chi * rt[i]) / chi) * lw[i]
                    eff = efficiency(i, ei)
                    node = out.setdefault("%s %s" % (el, fam), {}).setdefault(i, {})
                    r = node.setdefault(line, {"energy": ei, "energy_threshold": thr, "efficiency": eff, "mu_1_i": mui,
                                               "rate": 0.0, "primary": 0.0, "secondary": 0.0, "massFraction": frac, "_tol": 0.0, "_c": {}})
                    sec = 0.0
                    if secondary > 0:
                        for j in range(n):
                            if j != i and lw[i] and lw[j] / lw[i] < 1e-4:
                                continue
                            for ej, rate, name in sources[j]:
                                if thr > ej:
                                    continue
                                t = M.exc(el, ej).get(line)
                                if t is None:
                                    continue
                                pre = mf * 0.5 / si * t["rate"] * rate
                                if j == i:
                                    muj = M.mu(comp[i], ej)
                                    a, c = mu0[i] / si, mui / so
                                    v1, s1 = L0(a, c, muj, rt[i])
                                    v2, s2 = L0(c, a / 0.99999 if a == muj else a, muj, rt[i])
                                    v, s = v1 + v2, s1 + s2
                                else:
                                    if t["rate"] < 1e-30:
                                        continue
                                    m1, m2 = M.mu(comp[i], ej), M.mu(comp[j], ej)
                                    lo, hi = min(i, j), max(i, j)
                                    di, dj = rt[i], rt[j]
                                    bd = sum(rt[b] * M.mu(comp[b], ej) for b in range(lo + 1, hi))
                                    if i < j:
                                        # of a layer that absorbs the line much more than what excites it only the top is seen
                                        z = mui / so - m1
                                        if z * di > 500.0:
                                            di = 500.0 / z
                                            bd += m1 * (rt[i] - di)
                                        f = math.exp(-mui * di / so)
                                        p, q = mu0[j] / si, mui / so
                                    else:
                                        # of a layer that absorbs the beam much more than the line only the top excites anything
                                        z = mu0[j] / si - m2
                                        if z * rt[j] > 500.0:
                                            dj = 500.0 / z
                                            bd += m2 * (rt[j] - dj)
                                        f = math.exp(-mu0[j] * dj / si)
                                        p, q = -mu0[j] / si, -mui / so
                                        if -p == m2:
                                            p /= 0.99999
                                    v, s = X(p, q, di, dj, m1, m2, bd)
                                    v, s = v * f, s * f
                                v *= pre
                                sec += v
                                r["_tol"] += s * pre
                                old = r["_c"].get(name, (0.0, 0.0))
                                r["_c"][name] = (old[0] + v, old[1] + s * pre)
                    r["primary"] += prim
                    r["secondary"] += sec
    # escape and totals
    for key, layers in out.items():
        for i, node in layers.items():
            for line in list(node):
                r = node[line]
                esc = escapes(r["energy"])
                full = (r["primary"] + r["secondary"]) * r["efficiency"]
                r["rate"] = (1.0 - sum(d["rate"] for d in esc.values())) * full
                for k, d in esc.items():
                    node["%s %s" % (line, k)] = {"energy": d["energy"], "ratio": d["rate"], "rate": d["rate"] * full,
                                                 "primary": d["rate"] * r["primary"], "secondary": d["rate"] * r["secondary"],
                                                 "_tol": d["rate"] * r["_tol"], "_parent": line, "_abs": d.get("_abs", 0.0)}
    if secondary > 1:
        fac = {}
        for key, layers in out.items():
            for i, node in layers.items():
                for line, r in node.items():
                    if "_parent" in r or r["massFraction"] < 5e-3 or not r["primary"] > 0:
                        continue
                    f = (r["primary"] + r["secondary"]) / r["primary"]
                    r["_f"] = f
                    if f >= 1.01:
                        fac["%s %s %02d" % (key.split(" ")[0], line, i)] = f
        for key, layers in out.items():
            for i, node in layers.items():
                for line, r in sorted(node.items(), key=lambda kv: "_parent" in kv[1]):
                    f = (r["primary"] + r["secondary"]) / r["primary"] if r["primary"] > 0 else 1.0
                    r["_f"] = f
                    r["tertiary"] = 0.0
                    if f < 1.01:
                        continue
                    if "_parent" in r:
                        p = node[r["_parent"]]
                        r["tertiary"] = (r["primary"] + r["secondary"]) * p["tertiary"] / (p["primary"] + p["secondary"])
                    else:
                        r["tertiary"] = sum(v[0] * (fac[k] - 1.0) for k, v in r["_c"].items() if k in fac)
                    r["rate"] *= (r["tertiary"] + r["primary"] + r["secondary"]) / (r["primary"] + r["secondary"])
    return out, near
