"""C27: equivalent descriptions of a sample give equal answers."""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import xrfgen
RULE = ("random samples described in several ways: layers split and merged, materials named by formula, registered name or composition, density against thickness, an "
        "inert layer below, on top or as filter and attenuator; a case is one compared pair of answers")
CONST = ("energy", "energy_threshold", "mu_1_i", "massFraction", "ratio")


def main(c):
    build.build("plain")
    c.datadir(1 + c.seed % 3)
    c.fork(8, worker)


def worker(c, w):
    r, D = c.rng, c.driver("plain")
    lab = Lab(c, ["default", "pymca", "default", "custom"][w % 4], driver=D)
    R = lab.R
    G = xrfgen.Gen(lab, r)
    t0 = time.time()
    run = 0
    while run < c.size(200, 100000) and time.time() - t0 < c.size(13, 400):
        run += 1
        # (the enhancement of very thin layers is a difference of almost equal numbers)
        thin = r.choice([-4, -4, -7])
        cfg = G.config(nlayers=3, nmax=3, nray=2, thick=-1, thin=thin)
        S = cfg["sample"]
        n = len(S)
        c.context = xrfgen.slim(cfg)
        req = [(e, f, -1) for e, f, k in G.requests(cfg, r.randint(1, 3), .05)]
        mass = r.choice([1, 1, 0])

        def ask(cfg, sec=0, geo=1, what=""):
            G.apply(cfg)
            cmd = G.fluo(req, sec, geo, mass)
            g = D.attempt(*cmd)
            if isinstance(g, LibError):
                c.fail("raised", "%s raised %s %s" % (_j(cmd), g, what))
                return {}
            return xrfgen.clean(g)

        def pair(what, got, want, key, rel=1e-7):
            c.case((w, run, key), key)
            d = diff(got, want, rel, 1e-85)
            if d:
                c.fail(key, "%s, requests %s, mass fractions %d: %s" % (what, req, mass, d))
        sec = r.choice([0, 1]) if thin == -4 else 0
        base = ask(cfg, sec)
        c.count("lines", sum(len(l) for x in base.values() for l in x.values()))
        # other descriptions of the same layers
        other = dict(cfg, sample=[again(G, r, l) for l in S], filters=[again(G, r, l) for l in cfg["filters"]], attenuators=[again(G, r, l) for l in cfg["attenuators"]])
        for k in ("filters", "attenuators", "ufilters", "uattenuators"):
            other[k] = other[k][:]
            r.shuffle(other[k])
        pair("described as %s" % xrfgen.slim(other), ask(other, sec), base, "described")
        # density against thickness
        other = dict(cfg, sample=[dict(l) for l in S])
        for l in other["sample"]:
            f = 10 ** r.uniform(-2, 2)
            l["density"], l["thickness"] = l["density"] * f, l["thickness"] / f
        pair("densities and thicknesses %s" % [(l["density"], l["thickness"]) for l in other["sample"]], ask(other, sec, 0), ask(cfg, sec, 0), "scaled")
        # splitting
        k = r.randrange(n)
        m = r.choice([2, 2, 3])
        cuts = [r.uniform(.2, 1) for _ in range(m)]
        parts = [dict(S[k], thickness=S[k]["thickness"] * x / sum(cuts)) for x in cuts]
        other = dict(cfg, sample=S[:k] + parts + S[k + 1:])
        whole, split = ask(cfg, 0, 0), ask(other, 0, 0)
        joined = {}
        for key, layers in split.items():
            for i, lines in layers.items():
                j = i if i < k else k if i < k + m else i - m + 1
                for line, x in lines.items():
                    y = joined.setdefault(key, {}).setdefault(j, {}).setdefault(line, {})
                    for f, v in x.items():
                        if f in CONST or j != k:
                            y[f] = v
                        elif f == "rate":
                            y[f] = y.get(f, 0.0) + v
        for key in whole:
            for line, x in whole[key].get(k, {}).items():
                for f in list(x):
                    if f not in CONST and f != "rate":
                        del x[f]
        pair("layer %d split into %s" % (k, cuts), joined, whole, "split")
        # an inert layer
        used = {e for e, f, l in req}
        inert = r.choice([e for e in G.els if e not in used])
        L = {"mat": inert, "own": False, "comp": {inert: 1.0}, "density": r.uniform(.5, 5), "thickness": 10 ** r.uniform(-5, -2), "funny": 1.0}
        plain = ask(cfg)
        got = ask(dict(cfg, sample=S + [L]))
        pair("%s below the sample" % _j(L), got, plain if mass else drop(got, plain, n), "below")
        si, so = abs(math.sin(math.radians(cfg["alphaIn"]))), abs(math.sin(math.radians(cfg["alphaOut"])))
        if mass:
            top = ask(dict(cfg, sample=[L] + S), 0, 0)
            around = dict(cfg, filters=cfg["filters"] + [dict(L, thickness=L["thickness"] / si)], attenuators=cfg["attenuators"] + [dict(L, thickness=L["thickness"] / so)])
            want = {key: {i + 1: lines for i, lines in layers.items()} for key, layers in ask(around, 0, 0).items()}
            pair("%s on top of the sample, or as filter and attenuator" % _j(L), visible(top), visible(want), "ontop")
        # an attenuator
        A = G.layer("attenuator", 2, -5, -2)
        got = ask(dict(cfg, attenuators=cfg["attenuators"] + [A]))
        want = {}
        for key, layers in plain.items():
            for i, lines in layers.items():
                for line, x in lines.items():
                    e = lines[line.split(" ")[0]]["energy"]
                    t = transmission(c, D, G, lab, A, e)
                    want.setdefault(key, {}).setdefault(i, {})[line] = {f: v * t if f in ("rate", "efficiency") else v for f, v in x.items()}
        pair("%s added as attenuator" % _j({k: A[k] for k in A if k != "comp"}), got, want, "attenuator")
        # what lies between two layers: two neighbours exchanged, or one layer split
        if r.random() < .5:
            stack = [G.layer("sample", 3, -4.3, -2.7) for _ in range(r.randint(4, 6))]
            n = len(stack)
            deep = dict(cfg, sample=stack, ref=0)
            c.context = xrfgen.slim(deep)
            req = [(e, f, -1) for e, f, k in G.requests(deep, r.randint(2, 3), .05)]
            k = r.choice(range(1, n - 2)) if r.random() < .8 else r.randrange(n - 1)
            before = outside(ask(deep, 1, 0), {i: i for i in range(n) if i not in (k, k + 1)})
            moved = dict(deep, sample=stack[:k] + [stack[k + 1], stack[k]] + stack[k + 2:])
            after = outside(ask(moved, 1, 0), {i: i for i in range(n) if i not in (k, k + 1)})
            between(c, (w, run), "layers %d and %d exchanged" % (k, k + 1), req, after, before, "exchanged")
            x = r.uniform(.1, .9)
            parted = dict(deep, sample=stack[:k] + [dict(stack[k], thickness=stack[k]["thickness"] * f) for f in (x, 1 - x)] + stack[k + 1:])
            after = outside(ask(parted, 1, 0), {i if i < k else i + 1: i for i in range(n) if i != k})
            before = outside(ask(deep, 1, 0), {i: i for i in range(n) if i != k})
            between(c, (w, run), "layer %d split at %s of its thickness" % (k, x), req, after, before, "between")
            # the enhancement within a layer is the one within and between its parts
            c.case((w, run, "enhanced"), "enhanced")
            W = [ask(deep, 0, 0), ask(deep, 1, 0)]
            P = [ask(parted, 0, 0), ask(parted, 1, 0)]
            thinnest = stack[k]["density"] * stack[k]["thickness"] * stack[k].get("funny", 1.0) * min(x, 1 - x)
            for key, layers in W[0].items():
                for i, lines in layers.items():
                    for line, y in lines.items():
                        if " " in line or not y["rate"] > 1e-60 or (i == k and y["mu_1_i"] * thinnest < 0.011):
                            # (of layers of less than a hundredth of a mean free path it is neglected)
                            continue
                        at = [k, k + 1] if i == k else [i if i < k else i + 1]
                        whole = W[1][key][i][line]["rate"] - y["rate"]
                        parts = sum(sg * P[n].get(key, {}).get(j, {}).get(line, {"rate": 0.0})["rate"] for j in at for n, sg in ((1, 1), (0, -1)))
                        c.count("enhanced lines", whole > 1e-3 * y["rate"])
                        c.expect(abs(whole - parts) <= 1e-3 * abs(whole) + 1e-4 * y["rate"], "enhanced",
                                 "layer %d split at %s of its thickness, requests %s: the enhancement of %s of %s in layer %d is %.12g of the primary rate instead of %.12g"
                                 % (k, x, req, line, key, i, parts / y["rate"], whole / y["rate"]))
    c.sample(xrfgen.slim(cfg))


def outside(g, layers):
    """(family, layer, line) -> the primary intensity and what each line of each of the layers adds to it."""
    out = {}
    for key, x in g.items():
        for i, lines in x.items():
            if i not in layers:
                continue
            for line, values in lines.items():
                y = out.setdefault((key, layers[i], line), {})
                for f, v in values.items():
                    w = f.split(" ")
                    if f in ("energy", "primary"):
                        y[f] = v
                    elif len(w) == 3 and w[2].isdigit() and int(w[2]) in layers:
                        y["%s %s %d" % (w[0], w[1], layers[int(w[2])])] = v
    return out


def between(c, run, what, req, got, want, key):
    c.case(run + (key,), key)
    for line in sorted(set(got) | set(want)):
        a, b = got.get(line, {}), want.get(line, {})
        # (the enhancement is what is left of terms that cancel)
        top = max([abs(v) for x in (a, b) for f, v in x.items() if f != "energy"] or [0.0])
        c.count("contributions", sum(f not in ("energy", "primary") for f in b))
        for f in sorted(set(a) | set(b)):
            p, q = a.get(f, 0.0), b.get(f, 0.0)
            if f in ("energy", "primary"):
                ok = abs(p - q) <= 1e-7 * abs(q) + 1e-85
            else:
                ok = abs(p - q) <= 1e-4 * max(abs(p), abs(q)) + 1e-7 * top + 1e-80
            c.expect(ok, key, "%s, requests %s: %s of %s in layer %d: %s is %.17g instead of %.17g" % ((what, req, line[2], line[0], line[1], f, p, q)))


def visible(g):
    """Without the families of which nothing is left."""
    return {k: layers for k, layers in g.items() if any(x["primary"] > 1e-85 or x["rate"] > 1e-85 for lines in layers.values() for l, x in lines.items() if " " not in l)}


def drop(got, plain, n):
    """Without mass fractions the layer below has lines of its own."""
    plain = {k: dict(layers) for k, layers in plain.items()}
    for k, layers in plain.items():
        for i, lines in got.get(k, {}).items():
            if i >= n:
                layers[i] = lines
    return plain


def transmission(c, D, G, lab, l, x):
    cmds = []
    spec = G.layer_cmds(l, cmds)
    for q in cmds:
        D.call(*q)
    D.call("layer.new", "lf", *spec[:4])
    if l["own"]:
        D.call("layer.matM", "lf", l["mat"])
    return D.call("layer.trans", "lf", x, lab.h, 90.0)


def again(G, r, l):
    """The same layer with its material described another way."""
    n = dict(l)
    m = r.random()
    G.n += 1
    if m < .4:
        n["own"], n["mat"] = True, "m%d" % G.n
        f = r.choice([1.0, r.uniform(.2, 5)])
        n["how"] = {k: v * f for k, v in l["comp"].items()}
    elif m < .7 and not l["own"]:
        n["own"], n["mat"], n["how"] = True, "m%d" % G.n, {l["mat"]: r.choice([1.0, .3])}
    elif m < .9:
        # a material of the library with that composition
        name = "Same%d" % G.n
        G.D.call("E.addMaterialS", G.lab.h, name, 3.0, .2, "", 1)
        G.D.call("E.setCompM", G.lab.h, name, l["comp"])
        n["own"], n["mat"] = False, name
    return n


if __name__ == "__main__":
    Check("C27", RULE).run(main)
