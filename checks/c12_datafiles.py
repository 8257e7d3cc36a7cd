"""C12: the data files in use are reproduced faithfully."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import shellgen
RULE = ("random histories of loading generated constants, radiative, non-radiative and attenuation files (permuted columns, other notations, "
        "less rows, extra columns) and unacceptable ones (missing or extra scans, values, rows, labels, unsorted energies), plus libraries "
        "constructed from generated binding energy and cross section files; every number read back and compared with an independent parse")
SUBS = {"K": ["K"], "L": SHELLS[1:4], "M": SHELLS[4:9]}


def num(r, v):
    return r.choice(["%r", "%.17g", "%.16E", "%.17e"]) % v


def spec(r, scans, name="f.dat"):
    """Text of a specfile with the given (title, labels, rows)."""
    out = ["#F " + name]
    out += ["#U%02d something  odd # here" % k for k in range(r.randint(0, 3))]
    out.append("")
    for i, (title, labels, rows) in enumerate(scans):
        out.append("#S %d %s" % (i + 1, title))
        if r.random() < .7:
            out.append("#N %d" % len(labels))
        if r.random() < .3:
            out.append("#C a comment")
        out.append("#L " + "  ".join(labels))
        sep = r.choice([" ", " ", "  ", "\t"])
        out += [(" " if r.random() < .1 else "") + sep.join(num(r, v) if j >= len(labels) or labels[j] != "Z" else str(int(v)) for j, v in enumerate(row)) for row in rows]
        if r.random() < .9 or i + 1 < len(scans):
            out.append("")
    return "\n".join(out) + r.choice(["\n", "\n\n", ""])


def shuffled(r, cols):
    cols = list(cols)
    if r.random() < .6:
        r.shuffle(cols)
    return cols


def scans_constants(r, main, n):
    out = []
    for s in SUBS[main]:
        keys = ref.RefShell(s).ckkeys()
        cols = ["Z", "omega" + s] + [k for k in keys if r.random() < .9] + [x + s for x in ("gamma", "gammaA") if r.random() < .3]
        cols = shuffled(r, cols)
        rows = []
        for z in range(1, n + 1):
            d = shellgen.consts(r, s)
            rows.append([z if l == "Z" else d["omega"] if l.startswith("omega") else d[l] if l in d else r.random() for l in cols])
        out.append([s + " x-ray data", cols, rows])
    return out


def scans_rates(r, main, n, radiative):
    out = []
    for s in SUBS[main]:
        up = shellgen.above(s)
        if radiative:
            labels = [s + q for q in subset(r, up, 3, len(up))]
        else:
            labels = list(dict.fromkeys("%s-%s%s" % (s, a, r.choice(up[up.index(a):])) for a in (r.choice(up[:12]) for _ in range(r.randint(3, 40)))))
        cols = ["Z"] + (["TOTAL"] if r.random() < .7 else []) + labels
        cols = shuffled(r, cols)
        rows = []
        for z in range(1, n + 1):
            d = {l: shellgen.value(r) for l in labels}
            d[labels[0]] = r.uniform(.1, 1)
            d["TOTAL"] = sum(d.values())
            d["Z"] = z
            rows.append([d[l] for l in cols])
        out.append([s + " rates", cols, rows])
    return out


def scans_mu(r, D, xcom, n):
    out = []
    for h, labels, rows in xcom[:n]:
        keep = [row for i, row in enumerate(rows) if i == 0 or i + 1 == len(rows) or r.random() < .9 or rows[i - 1][0] == row[0] or rows[i + 1][0] == row[0]]
        k = [r.uniform(.5, 2) for _ in labels]
        rows2 = [[v if i == 0 else v * k[i] for i, v in enumerate(row)] for row in keep]
        idx = shuffled(r, range(len(labels)))
        idx = [i for i in idx if not (labels[i].startswith(("Total", "CoherentPlus")) and r.random() < .3)]
        out.append([h, [labels[i] for i in idx], [[row[i] for i in idx] for row in rows2]])
    return out


def spoil(r, kind, scans, used):
    """An unacceptable variant of good scans, and what is wrong with it."""
    s = [[t, list(l), [list(x) for x in rows]] for t, l, rows in scans]
    ways = ["short row", "missing column"] if kind == "mu" else ["no scan", "extra scan", "short row", "long row", "many rows"]
    if kind == "mu":
        ways += ["unsorted", "many scans", "no scan", "no column"]
    k = r.randrange(len(s))
    if kind in ("const", "rad") and used(s[k]):
        ways.append("bad label")
    w = r.choice(ways)
    if w == "no scan":
        s = [] if kind == "mu" or len(s) == 1 else s[:-1]
    elif w == "extra scan":
        s.append([x for x in s[0]])
    elif w in ("short row", "missing column"):
        row = r.choice(s[k][2])
        row.pop()
    elif w == "long row":
        r.choice(s[k][2]).append(0.5)
    elif w == "many rows":
        s[k][2] += [list(s[k][2][-1]) for _ in range(130)]
    elif w == "bad label":
        i = [i for i, l in enumerate(s[k][1]) if l != "Z"][-1]
        s[k][1][i] = {"const": "f99", "rad": {"K": "L3M1"}.get(s[k][0][0], "KL3")}[kind]
    elif w == "unsorted":
        e = s[k][1].index("PhotonEnergy[keV]")
        rows = s[k][2]
        rows[2][e], rows[-2][e] = rows[-2][e], rows[2][e]
    elif w == "many scans":
        while len(s) < 120:
            s.append(s[0])
    elif w == "no column":
        i = s[k][1].index(r.choice([l for l in s[k][1] if l.startswith(("Photo", "Compton", "Rayleigh"))]))
        s[k][1].pop(i)
        for row in s[k][2]:
            row.pop(i)
    return w, s


def shells_of(c, D, lab, main, els, kinds=("const", "rad", "non")):
    """Compare everything about a main shell of these elements."""
    R = lab.R
    cmds, want = [], []
    for el in els:
        for s in SUBS[main]:
            sh = R.el[el].shells[s]
            for k in kinds:
                cmds.append(["E." + k, lab.h, el, s])
                want.append({"const": sh.const, "rad": sh.rad, "non": sh.non}[k])
    for cmd, w, g in zip(cmds, want, batch(c, D, cmds)):
        if isinstance(g, LibError):
            c.fail("shell", "%s raised %s" % (_j(cmd), g))
        else:
            d = diff(g, w, 1e-12, 1e-300)
            c.expect(d is None, "shell:" + cmd[0], "%s differs from the file: %s" % (_j(cmd), d), g)
        c.case((lab.h, tuple(cmd[2:]), repr(sorted(w.items()))[:200]) if w else None, cmd[0][2:])


def mus_of(c, D, lab, els):
    for el in els:
        g = D.attempt("E.muall", lab.h, el)
        e = lab.R.el[el]
        for q in ("energy", "coherent", "compton", "pair", "photoelectric"):
            c.same(g.get(q) if not isinstance(g, LibError) else g, e.mu[q] if q != "energy" else e.grid, "mu", "table of %s: %s " % (el, q), 1e-8 if q != "energy" else 1e-6, 1e-300)
        c.case((lab.h, el, tuple(e.grid[:4]), e.mu["photoelectric"][5]), "mu")


def history(c, r, D, mode, i, steps):
    lab = Lab(c, mode, driver=D, handle="E%d" % i)
    R = lab.R
    xcom = gendata.parse_spec(os.path.join(lab.dir, "XCOM_CrossSections.dat"))
    files = {}
    for k in range(steps):
        kind = r.choice(["const", "rad", "non", "const", "rad", "non", "mu"])
        main = r.choice("KLM")
        n = r.choice([100, 100, 109, 92, r.randint(1, 30)])
        if kind == "const":
            scans = scans_constants(r, main, n)
        elif kind == "mu":
            scans = scans_mu(r, D, xcom, r.choice([8, 20, 30]))
        else:
            scans = scans_rates(r, main, min(n, 100), kind == "rad")
        way = None
        if r.random() < .4:
            # labels are looked at only for the elements which have the shell
            way, scans = spoil(r, kind, scans, lambda s: any(R.el[el].binding.get(s[0].split()[0], 0) > 0 for el in R.order[:len(s[2])]))
        name = c.write("h%d_%d.dat" % (i, k), spec(r, scans))
        c.context = [mode, kind, main, way, name]
        cmd = ["E.muFile", lab.h, name] if kind == "mu" else ["E.%sFile" % kind, lab.h, main, name]
        if r.random() < .06:
            cmd[-1] = os.path.join(c.scratch(), "missing.dat")
            way = "missing file"
        g = D.attempt(*cmd)
        if way:
            c.expect(isinstance(g, LibError), "accepted", "a %s file with %s is accepted" % (kind, way))
            c.count("refused_files")
        else:
            c.expect(not isinstance(g, LibError), "refused", "a good %s file is refused: %s" % (kind, g))
            if kind == "const":
                R.load_constants(main, name, gendata.parse_spec)
            elif kind == "mu":
                R.load_mu(name, gendata.parse_spec)
            else:
                R.load_rates(main, name, gendata.parse_spec, kind == "rad")
            if kind != "mu":
                files[(kind, main)] = name
            c.count("loaded_files")
        els = R.order[:12] + subset(r, R.order[12:], 14, 14)
        shells_of(c, D, lab, main, R.order[:100] if not way and c.thorough else els)
        other = r.choice([q for q in "KLM" if q != main])
        shells_of(c, D, lab, other, subset(r, R.order, 6, 6))
        mus_of(c, D, lab, subset(r, R.order[:30], 4, 4) + subset(r, R.order, 2, 2))
        for (kk, m), f in files.items():
            c.expect(D.attempt("E.get%sFile" % kk.capitalize(), lab.h, m) == f, "file-name", "the %s file of %s is not reported" % (kk, m))
    c.sample({"mode": mode, "last file": c.files[os.path.basename(name)][:300]})
    D.call("E.del", lab.h)


def construction(c, r, D, i, w):
    """Everything of a library constructed from generated tables."""
    src = c.datadir(50 + i + 10 * w, npoints=r.choice([40, 64, 90]), noise=.2)
    # random binding energies for the light elements and constants for all
    for main in "KLM":
        with open(os.path.join(src, "EADL97_%sShellConstants.dat" % main), "w") as f:
            f.write(spec(r, scans_constants(r, main, 100)))
    bind = os.path.join(src, "b.dat")
    rows = []
    for z in range(1, r.choice([100, 109, 92]) + 1):
        x = 0.0136 * z * z * r.uniform(.9, 1)
        row = []
        for s in SHELLS + ["N1", "N2"]:
            row.append(float("%.6f" % x) if x > .01 and z > 3 * len(row) else 0.0)
            x *= r.uniform(.2, .9)
        rows.append([z] + row)
    with open(bind, "w") as f:
        f.write(spec(r, [["Binding energies in keV", ["Z"] + SHELLS + ["N1", "N2"], rows]]))
    h = "C%d" % i
    c.context = ["construction", src]
    D.call("E.new", h, src)
    R = ref.load_elements(src, gendata.parse_spec, gendata.read_binding)

    class L:
        pass
    lab = L()
    lab.h, lab.R = h, R
    bindings(c, D, lab, R.order)
    for m in "KLM":
        shells_of(c, D, lab, m, R.order if c.thorough else subset(r, R.order, 35, 35))
    mus_of(c, D, lab, R.order if c.thorough else subset(r, R.order, 25, 25))
    # another binding energies file
    D.call("E.new", h, src, bind, "")
    lab.R = ref.load_elements(src, gendata.parse_spec, gendata.read_binding, bind, None)
    bindings(c, D, lab, R.order)
    mus_of(c, D, lab, subset(r, R.order, 6, 6))
    D.call("E.del", h)


def bindings(c, D, lab, els):
    c.same(D.attempt("E.names", lab.h), list(lab.R.order), "names", "names of the elements", 0)
    for el, g in zip(els, batch(c, D, [["E.bind", lab.h, el] for el in els])):
        e = lab.R.el[el]
        c.same(g, e.binding, "binding", "binding energies of %s" % el, 1e-12)
        c.case((lab.h, el, tuple(e.binding.values())), "binding")
    for el, g in zip(els, batch(c, D, [["E.info", lab.h, el] for el in els])):
        e = lab.R.el[el]
        w = [el, e.z, e.mass, e.density if e.density else 1.0, e.longname, e.column, e.row]
        if e.density is None and not isinstance(g, LibError):
            w[3] = g[3]
        c.same(g, w, "info", "description of %s" % el, 1e-12)


def work(c, w):
    r, D = c.rng, c.driver()
    for i, mode in enumerate([["default", "pymca"], ["pymca", "custom"], ["custom", "default"]][w % 3] if not c.thorough else ["default", "pymca", "custom"] * 6):
        history(c, r, D, mode, i, c.size(14, 60))
    for i in range(c.size(1, 6)):
        construction(c, r, D, i, w)


def main(c):
    c.spread(work)


if __name__ == "__main__":
    Check("C12", RULE).run(main)
