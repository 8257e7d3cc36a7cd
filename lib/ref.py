"""Independent reference model of the documented behaviour (the oracle).

Written from the physics and the documented conventions; shares no code with
the library.  All functions are pure."""
import math, os, re, json, bisect
HERE = os.path.dirname(os.path.abspath(__file__))
SHELLS = ["K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"]
PART = SHELLS + ["all other"]


ILL = [0]


class RefError(Exception):
    """The operation must be rejected."""


# ------------------------------------------------------------------ shells
class RefShell(object):
    def __init__(self, name):
        if name not in SHELLS:
            raise RefError("shell")
        self.name = name
        self.const = {}
        self.const["omega"] = 0.0
        for k in self.ckkeys():
            self.const[k] = 0.0
        self.rad = {}
        self.non = {}

    def ckkeys(self):
        n = self.name
        if n == "K":
            return []
        top = 3 if n[0] == "L" else 5
        return ["f%s%d" % (n[1], j) for j in range(int(n[1]) + 1, top + 1)]

    def set_const(self, d):
        for k in d:
            if k not in self.const:
                raise RefError("constant")
        c = dict(self.const)
        c.update(d)
        self.const = c

    def set_rad(self, pairs):
        new = {}
        for lab, v in pairs:
            l = lab.upper()
            if len(l) == 2:
                l += "2"
            if l != "TOTAL":
                if len(l) == 5:
                    if not (l[3].isdigit() and l[4].isdigit()):
                        raise RefError("label")
                    l = l[:4]
                elif not l.startswith(self.name):
                    raise RefError("label")
            new[l] = v
        self.rad = new

    def set_non(self, pairs):
        new = {}
        for lab, v in pairs:
            new[lab.upper()] = v
        if "TOTAL" not in new:
            new["TOTAL"] = sum(new.values())
        self.non = new

    def fluo(self):
        tot = sum(v for k, v in self.rad.items() if k != "TOTAL")
        return {k: v / tot for k, v in self.rad.items() if k != "TOTAL" and v > 0}

    def _groups(self):
        """CK groups {f_ij: {label: value}} and Auger {label: value}."""
        g = {k: {} for k in self.ckkeys()}
        a = {}
        for k, v in self.non.items():
            if k == "TOTAL" or not v > 0:
                continue
            for key in g:
                if k.startswith("%s-%s%s" % (self.name, self.name[0], key[2])):
                    g[key][k] = v
                    break
            else:
                a[k] = v
        return g, a

    def ck(self):
        g, a = self._groups()
        out = {}
        if not self.non:
            return out
        for k, d in g.items():
            t = sum(d.values())
            out[k] = {l: v / t for l, v in d.items()}
            out[k]["TOTAL"] = t
        return out

    def auger(self):
        g, a = self._groups()
        if not self.non:
            return {}
        tot = self.non["TOTAL"] - sum(sum(d.values()) for d in g.values())
        if not tot > 0 and not a:
            return {"TOTAL": tot}
        out = {l: v / tot for l, v in a.items()}
        out["TOTAL"] = tot
        return out

    def consts_sum(self):
        return sum(self.const.values())

    @staticmethod
    def _to(d, name, dest):
        s = 0.0
        for l, v in d.items():
            if l == "TOTAL":
                continue
            if l.startswith(name + "-" + dest):
                s += v
            if l.endswith(dest):
                s += v
        return s

    def transfer(self, dest):
        """Probability that a vacancy here ends up as a vacancy in dest."""
        out = {}
        s = self.consts_sum()
        if s > 1.0001:
            raise RefError("constants")
        f = self.fluo().get(self.name + dest, 0.0) * self.const["omega"]
        a = self._to(self.auger(), self.name, dest) * (1.0 - s)
        out["fluorescence"] = f
        out["auger"] = a
        ck = self.ck()
        for k in self.ckkeys():
            out[k] = self._to(ck.get(k, {}), self.name, dest) * self.const[k] if k in ck else 0.0
        return out

    def transfer_total(self, dest):
        return sum(self.transfer(dest).values())


# ------------------------------------------------------------ raw tabulation
def epdl(g, binding, x):
    """Raw EPDL tabulation g at energy x, forced to respect the given bindings."""
    grid = g["energy"]
    i1, i2 = _span(grid, x)
    flat = grid[i2] - grid[i1] < 5e-10
    out = {"energy": x, "pair": 0.0}
    for k in ("coherent", "compton", "all other"):
        out[k] = g[k][i2] if flat else smooth(grid, g[k], i1, i2, x)
    for s in SHELLS:
        if s not in binding:
            raise RefError("binding")
        v, b = g[s], binding[s]
        out[s] = 0.0
        if b <= 0 or x < b:
            continue
        if v[i1] > 0:
            if flat:
                out[s] = v[i1]
            elif v[i2] > 0:
                out[s] = loglog(x, grid[i1], v[i1], grid[i2], v[i2])
        elif flat and v[i2] > 0:
            out[s] = v[i2]
        else:
            out[s] = RefElement._extra(grid, v, i1, x, False)
    out["photoelectric"] = sum(out[s] for s in PART)
    out["total"] = out["photoelectric"] + out["coherent"] + out["compton"]
    return out


def epdl_weights(g, binding, x):
    m = epdl(g, binding, x)
    out = {"mu " + k: v for k, v in m.items()}
    p = m["photoelectric"]
    out.update({s: (m[s] / p if p > 1e-10 else 0.0) for s in PART})
    return out


# ---------------------------------------------------------------- elements
def locate(vec, x):
    i2 = bisect.bisect_left(vec, x)
    if i2 == len(vec):
        i2 = len(vec) - 1
    elif i2 == 0:
        i2 = 1
    return i2 - 1, i2


def _span(vec, x):
    i1, i2 = locate(vec, x)
    if x == vec[i2] and i2 + 1 < len(vec) and vec[i2 + 1] == vec[i2]:
        i1, i2 = i2, i2 + 1
    return i1, i2


def loglog(x, x0, y0, x1, y1):
    w = math.log(x / x0) / math.log(x1 / x0)
    try:
        return math.exp((1 - w) * math.log(y0) + w * math.log(y1))
    except OverflowError:
        ILL[0] += 1
        return math.inf


def smooth(vec, val, i1, i2, x):
    """Non-shell quantities: log-log when both ends are positive, linear from zero."""
    x0, x1, y0, y1 = vec[i1], vec[i2], val[i1], val[i2]
    if y0 > 0 and y1 > 0:
        return loglog(x, x0, y0, x1, y1)
    if y1 > 0 and x - x0 > 1e-5:
        return y1 * ((x - x0) / (x1 - x0))
    return 0.0


class RefElement(object):
    def __init__(self, name="", z=0):
        self.name, self.z = name, z
        self.mass = self.density = 0.0
        self.longname, self.column, self.row = "", 0, 0
        self.binding = {}
        self.shells = {}
        self.grid = []
        self.mu = {}
        self.part = {s: ([], []) for s in PART}
        self.data_name = name

    def copy(self):
        import copy
        return copy.deepcopy(self)

    def set_binding(self, d):
        self.binding = dict(d)
        self.shells = {s: RefShell(s) for s in d if s[:1] in ("K", "L", "M")}

    def set_mu(self, e, photo, coh, compt, pair):
        n = len(e)
        if len(photo) != n or len(coh) != n or len(compt) != n or (pair and len(pair) != n):
            raise RefError("sizes")
        if any(e[i] < e[i - 1] for i in range(1, n)):
            raise RefError("order")
        pair = list(pair) if pair else [0.0] * n
        self.grid = list(e)
        self.mu = {"coherent": list(coh), "compton": list(compt), "pair": pair, "photoelectric": list(photo),
                   "total": [a + b + c + d for a, b, c, d in zip(coh, compt, pair, photo)], "energy": list(e)}

    def set_partial(self, shell, e, v):
        if shell not in self.part:
            raise RefError("shell")
        if len(e) != len(v):
            raise RefError("sizes")
        last = 0.0
        for x in e:
            if x < last:
                raise RefError("order")
            last = x
        e, v = list(e), list(v)
        if shell != "all other":
            b = self.binding.get(shell, 0.0)
            for i in range(1, len(e)):
                if e[i] < b:
                    v[i] = 0.0
                elif e[i] == e[i - 1]:
                    e[i] += 1e-6
                    v[i - 1] = v[i]
        self.part[shell] = (e, v)

    # -- attenuation
    def partial1(self, shell, x):
        e, v = self.part[shell]
        if shell != "all other":
            b = self.binding.get(shell, 0.0)
            if b == 0.0 or x < b:
                return 0.0
        i1, i2 = _span(e, x)
        if e[i2] - e[i1] < 5e-10:
            if shell == "all other":
                return v[i2]
            if v[i1] > 0:
                return v[i1]
            if v[i2] > 0:
                return v[i2]
            return self._extra(e, v, i1, x, False)
        if shell == "all other":
            return smooth(e, v, i1, i2, x)
        if v[i1] > 0:
            return loglog(x, e[i1], v[i1], e[i2], v[i2]) if v[i2] > 0 else 0.0
        return self._extra(e, v, i1, x, True)

    @staticmethod
    def _extra(e, v, i, x, skip):
        while i < len(v) and v[i] <= 0:
            i += 1
        j = i + 1
        if j >= len(v):
            raise RefError("extrapolation")
        if skip and e[j] - e[i] < 1e-10:
            i, j = i + 1, j + 1
            if j >= len(v):
                raise RefError("extrapolation")
        if e[j] - e[i] < 1e-4 * e[i]:
            ILL[0] += 1       # badly conditioned
        return loglog(x, e[i], v[i], e[j], v[j])

    def partials(self, x):
        return {s: self.partial1(s, x) for s in PART}

    def coeffs(self, x):
        out = self.partials(x)
        i1, i2 = _span(self.grid, x)
        for k in ("coherent", "compton", "pair"):
            y = self.mu[k]
            if self.grid[i2] - self.grid[i1] < 5e-10:
                out[k] = y[i1]
            else:
                out[k] = smooth(self.grid, y, i1, i2, x)
        out["energy"] = x
        out["photoelectric"] = sum(out[s] for s in PART)
        out["total"] = out["photoelectric"] + out["coherent"] + out["compton"] + out["pair"]
        return out

    def vacancy(self, x):
        c = self.coeffs(x)
        p = c["photoelectric"]
        return {s: (c[s] / p if p > 0 else 0.0) for s in PART}

    def excited(self, x):
        return sorted(s for s, b in self.binding.items() if b > 0 and x > b)

    # -- emission
    def line_energy(self, label):
        to = label[:2] if len(label) == 4 else label[:1]
        frm = label[-2:]
        if len(label) not in (3, 4) or self.binding.get(to, 0.0) <= 0:
            raise RefError("transition")
        e = self.binding.get(frm, 0.0)
        return self.binding[to] - (e if e > 0 else 0.003)

    def cascade(self, dist):
        keys = [s for s in SHELLS if s in self.shells]
        out = {k: dist.get(k, 0.0) for k in keys}
        for i, k in enumerate(keys):
            if out[k] > 0:
                for j in keys[i + 1:]:
                    out[j] += self.shells[k].transfer_total(j) * out[k]
        return out

    def fromvac(self, dist, cascade=1, use_yield=1):
        keys = [s for s in SHELLS if s in self.shells]
        d = self.cascade(dist) if cascade else {k: dist.get(k, 0.0) for k in keys}
        out = {}
        for k in keys:
            for line, r in self.shells[k].fluo().items():
                rate = r * d[k]
                if use_yield:
                    rate *= self.shells[k].const["omega"]
                if rate > 0:
                    b = self.binding.get(k, 0.0)
                    if b <= 0:
                        raise RefError("transition")
                    e1 = self.binding.get(line[-2:], 0.0)
                    out[line] = {"rate": rate, "energy": b - (e1 if e1 > 0 else 0.003)}
        return out

    def exc(self, x, w=1.0):
        out = self.fromvac(self.vacancy(x), 1, 1)
        photo = self.coeffs(x)["photoelectric"]
        for l in out.values():
            l["factor"] = l["rate"] * w
            l["rate"] = l["factor"] * photo
        return out

    def emitted(self, x):
        out = {}
        for s in SHELLS:
            if s not in self.shells:
                continue
            if x > self.binding.get(s, 0.0):
                sh = self.shells[s]
                if sh.const["omega"] > 0:
                    for line in sh.fluo():
                        out[line] = self.line_energy(line)
        return out

    # -- user supplied attenuation data
    def edges(self, e, photo):
        cand = {}
        for i in range(len(e) - 1):
            if e[i] == e[i + 1] and photo[i] < photo[i + 1]:
                cand[e[i]] = i
        out = {}
        for s, x in zip(SHELLS, sorted(cand, reverse=True)):
            b = self.binding.get(s, 0.0)
            if b > 0 and abs(x - b) < 0.1:
                out[s] = (x, cand[x])
        return out


# --------------------------------------------------------------- formulas
def parse_formula(text):
    """{symbol: atoms} or None.  Grammar: (Symbol | '(' formula ')') [count] ..."""
    pos = 0
    tok = re.compile(r"[A-Z][a-z]*|\(|\)|\d+\.?\d*|\.\d+")
    toks = []
    while pos < len(text):
        m = tok.match(text, pos)
        if not m:
            return None
        toks.append(m.group())
        pos = m.end()
    if not toks:
        return None

    def group(i, depth):
        out = {}
        n = 0
        while i < len(toks) and toks[i] != ")":
            t = toks[i]
            if t == "(":
                sub, i = group(i + 1, depth + 1)
                if sub is None or i >= len(toks) or toks[i] != ")":
                    return None, i
                i += 1
            elif t[0].isalpha():
                sub = {t: 1.0}
                i += 1
            else:
                return None, i
            k = 1.0
            if i < len(toks) and (toks[i][0].isdigit() or toks[i][0] == "."):
                k = float(toks[i])
                i += 1
            for s, v in sub.items():
                out[s] = out.get(s, 0.0) + v * k
            n += 1
        if n == 0:
            return None, i
        return out, i
    out, i = group(0, 0)
    if out is None or i != len(toks):
        return None
    return out


# --------------------------------------------------------------- registry
def normalise(comp):
    t = sum(comp.values())
    return {k: v / t for k, v in comp.items()}


class RefElements(object):
    """What a loaded elements library must answer."""
    def __init__(self):
        self.el = {}
        self.order = []
        self.epdl = {}
        self.materials = {}       # name -> {"comp":…, "density":…, "thickness":…, "comment":…}
        self.matorder = []

    def copy(self):
        import copy
        return copy.deepcopy(self)

    # -- composition
    def formula(self, text):
        p = parse_formula(text)
        if p is None or any(s not in self.el for s in p):
            return {}
        out = {s: n * self.el[s].mass for s, n in p.items()}
        return normalise(out) if sum(out.values()) > 0 else {}

    def comp(self, name, seen=()):
        c = self.formula(name)
        if c:
            return c
        if name not in self.materials:
            return {}
        m = self.materials[name]["comp"]
        if not m:
            raise RefError("empty material")
        if name in seen:
            raise RefError("material made of itself")
        out = {}
        for k, v in sorted(normalise(m).items()):
            c = self.comp(k, seen + (name,))
            if not c:
                return {}
            for s, f in c.items():
                out[s] = out.get(s, 0.0) + f * v
        return out

    def comp_with(self, what, mats, seen=()):
        """Composition of a name or {name: amount} map when a list of
        (name, composition) materials takes precedence over the registered ones."""
        if isinstance(what, dict):
            out = {}
            for k, v in sorted(what.items()):
                c = self.comp_with(k, mats, seen)
                if not c:
                    return {}
                for s, f in c.items():
                    out[s] = out.get(s, 0.0) + f * v
            return normalise(out) if out else {}
        c = self.formula(what)
        if c:
            return c
        for n, m in mats:
            if n == what:
                if not m:
                    raise RefError("empty material")
                if n in seen:
                    raise RefError("material made of itself")
                return self.comp_with(m, mats, seen + (n,))
        return self.comp(what)

    # -- attenuation
    def mu(self, what, x):
        """what: element, formula or material name, or a {name: fraction} map."""
        if not isinstance(what, dict):
            if what in self.el:
                return self.el[what].coeffs(x)
            c = self.comp(what)
            if not c:
                raise RefError("unknown material")
            return self.mu(c, x)
        if any(v < 0 for v in what.values()):
            raise RefError("negative fraction")
        tot = sum(what.values())
        if not tot > 0:
            raise RefError("no material")
        out = {k: 0.0 for k in ("coherent", "compton", "pair", "photoelectric", "total")}
        for name, f in what.items():
            c = self.comp(name)
            if not c:
                raise RefError("unknown " + name)
            for s, g in c.items():
                m = self.el[s].coeffs(x)
                for k in out:
                    out[k] += f / tot * g * m[k]
        out["energy"] = x
        return out

    def total(self, comp, x):
        """Total mass attenuation of an elemental composition."""
        t = sum(comp.values())
        return sum(f / t * self.el[s].coeffs(x)["total"] for s, f in comp.items())

    def families(self, names, x):
        if not isinstance(names, (list, tuple)):
            names = [names]
        out = []
        for n in names:
            if n not in self.el:
                raise RefError("element")
            e = self.el[n]
            for s, b in e.binding.items():
                if s in e.shells and x > b and b > 0 and e.shells[s].const["omega"] > 0:
                    out.append((n + " " + s, b))
        return out

    # -- detector escape
    def escape(self, comp, x, ith, alpha_in, thickness):
        sn = 1.0 if alpha_in == 90 else abs(math.sin(math.radians(alpha_in)))
        mi = self.mu(comp, x)["total"]
        out = {}
        for el, f in comp.items():
            for line, d in self.el[el].exc(x, f).items():
                mf = self.mu(comp, d["energy"])["total"]
                t = sn * mf / mi
                r = d["rate"] * 0.5 / mi * (1.0 - t * math.log1p(1.0 / t))
                # the logarithm of 1 + 1 / t loses precision as t grows
                out[el + "_" + line + "esc"] = {"raw": r, "energy": x - d["energy"], "abs": 1e-15 * (1.0 + t) * d["rate"] / mi}
        res = {}
        for k, d in out.items():
            if d["raw"] > ith:
                r = d["raw"]
                if thickness > 0:
                    r /= -math.expm1(-mi * thickness / sn)
                res[k] = {"rate": r, "energy": d["energy"], "_abs": d["abs"] * r / d["raw"]}
        near = [k for k, d in out.items() if abs(d["raw"] - ith) < 1e-6 * ith + 10 * d["abs"]]
        return res, near

    # -- user attenuation data
    def set_mu(self, name, e, photo, coh, compt, pair):
        if name not in self.el:
            raise RefError("element")
        el = self.el[name]
        n = len(e)
        if n < 1 or len(photo) != n or len(coh) != n or len(compt) != n or len(pair) not in (0, n):
            raise RefError("sizes")
        if any(e[i] < e[i - 1] for i in range(1, n)):
            raise RefError("order")
        pair = list(pair) or [0.0] * n
        base = el.copy()
        g = self.epdl[el.z]
        base.set_mu(g["energy"], g["photoelectric"], g["coherent"], g["compton"], g["pair"])
        for s in PART:
            base.set_partial(s, g["energy"], g[s])
        if g["energy"][-1] < e[0]:
            raise RefError("energies beyond the tabulation")
        j = bisect.bisect_left(g["energy"], e[0])
        j = max(j - 1, 0)
        edges = el.edges(e, photo)
        new = list(g["energy"][:j])
        above = {edges[s][1] + 1: el.binding[s] for s in edges if edges[s][0] < el.binding[s]}
        for i, x in enumerate(e):
            x = above.get(i, x)
            if j > 0 and x < new[-1]:
                x = new[-1] + 1e-6
            new.append(x)
        c = [base.coeffs(x) for x in new]
        old = [k["photoelectric"] for k in c]
        ph = old[:j] + list(photo)
        parts = {s: [k[s] for k in c] for s in PART}
        todo = edges if edges else PART
        for s in todo:
            first = j
            if edges:
                first = j + edges[s][1] + 1
                for i in range(first):
                    parts[s][i] = 0.0
            for i in range(first, len(new)):
                parts[s][i] = ph[i] * (parts[s][i] / old[i]) if old[i] > 0 else 0.0
        base.set_mu(new, ph, [k["coherent"] for k in c[:j]] + list(coh), [k["compton"] for k in c[:j]] + list(compt),
                    [k["pair"] for k in c[:j]] + pair)
        for s in PART:
            base.set_partial(s, new, parts[s])
        self.el[name] = base

    # -- data files
    def load_constants(self, main, path, parse):
        subs = [s for s in SHELLS if s[0] == main]
        for s, (h, labels, rows) in zip(subs, parse(path)):
            for name, row in zip(self.order, rows):
                d = {}
                for l, v in zip(labels, row):
                    if l == "Z":
                        continue
                    if len(l) > 4:
                        if l.startswith("omega"):
                            d["omega"] = v
                    else:
                        d[l] = v
                self.el[name].shells[s].set_const(d)

    def load_rates(self, main, path, parse, radiative):
        subs = [s for s in SHELLS if s[0] == main]
        for s, (h, labels, rows) in zip(subs, parse(path)):
            for name, row in zip(self.order, rows):
                if self.el[name].binding.get(s, 0.0) > 0:
                    d = sorted((l, v) for l, v in zip(labels, row) if l != "Z")
                    sh = self.el[name].shells[s]
                    sh.set_rad(d) if radiative else sh.set_non(d)

    def load_mu(self, path, parse):
        for name, (h, labels, rows) in zip(self.order, parse(path)):
            col = {}
            for i, l in enumerate(labels):
                u = l.upper()
                v = [r[i] for r in rows]
                if "ENERGY" in u:
                    col["e"] = v
                if "PHOTO" in u and "ENERGY" not in u:
                    col["photo"] = v
                if "PAIR" in u:
                    col["pair"] = v
                if "COMPTON" in u:
                    col["compt"] = v
                if "RAYLEIGH" in u or ("COHERENT" in u and "INCOHERENT" not in u):
                    col["coh"] = v
            self.set_mu(name, col["e"], col["photo"], col["coh"], col["compt"], col.get("pair", []))


EPDL_COLS = ["energy", "coherent", "compton", None, "photoelectric", None, None] + SHELLS + ["all other"]


def load_elements(datadir, parse, read_binding, binding_file=None, xs_file=None, pymca=False):
    """The reference counterpart of loading a data directory."""
    R = RefElements()
    R.epdl = {}
    if pymca:
        binding_file = os.path.join(datadir, "BindingEnergies.dat")
        xs_file = os.path.join(datadir, "XCOM_CrossSections.dat")
    bind = read_binding(os.path.join(datadir, "EADL97_BindingEnergies.dat"))
    R.eadl = [dict(b) for b in bind]
    if binding_file:
        # another file replaces the energies it lists
        new = read_binding(binding_file)
        bind = [dict(bind[i] if i < len(bind) else {}, **d) for i, d in enumerate(new)]
    scans = parse(os.path.join(datadir, "EPDL97_CrossSections.dat"))
    info = json.load(open(os.path.join(HERE, "elements_info.json")))
    grids = []
    for i, (h, labels, rows) in enumerate(scans):
        g = {}
        cols = list(zip(*rows))
        for k, c in zip(EPDL_COLS, cols):
            if k:
                g[k] = list(c)
        tot = cols[6]
        oth = []
        for q in range(len(rows)):
            o = 0.0
            if g["photoelectric"][q] > 0 and g["all other"][q] > 0 and i > 17:
                o = max(0.0, tot[q] - g["compton"][q] - g["coherent"][q] - sum(g[s][q] for s in SHELLS))
            oth.append(o)
        g["all other"] = oth
        g["photoelectric"] = [sum(g[s][q] for s in PART) for q in range(len(rows))]
        g["pair"] = [0.0] * len(rows)
        grids.append(g)
    for sym, z, col, row, longname, mass, dens in info:
        e = RefElement(sym, z)
        e.column, e.row, e.longname, e.mass = col, row, longname, mass
        e.density = dens / 1000.0 if dens > 1e-10 else None
        b = bind[min(z, len(bind)) - 1]
        e.set_binding(b)
        g = grids[min(z, len(grids)) - 1]
        R.epdl[z] = g
        e.set_mu(g["energy"], g["photoelectric"], g["coherent"], g["compton"], g["pair"])
        for s in PART:
            e.set_partial(s, g["energy"], g[s])
        R.el[sym] = e
        R.order.append(sym)
    p = lambda n: os.path.join(datadir, n)
    for m in "KLM":
        R.load_constants(m, p("EADL97_%sShellConstants.dat" % m), parse)
    for m in "KLM":
        R.load_rates(m, p("EADL97_%sShellNonradiativeRates.dat" % m), parse, False)
    for m in "KLM":
        R.load_rates(m, p("EADL97_%sShellRadiativeRates.dat" % m), parse, True)
    if xs_file:
        R.load_mu(xs_file, parse)
    if pymca:
        for m in "KLM":
            R.load_constants(m, p("%sShellConstants.dat" % m), parse)
        for m in "KLM":
            R.load_rates(m, p("%sShellRates.dat" % m), parse, True)
    return R
