"""C15: composition of materials."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import matgen
RULE = ("random registries (nested up to 40 levels, circular, with unknown parts) and additional material lists shadowing them x names, formulas and "
        "composition maps; compared with a recursive resolver; a case is one resolution, non-trivial when it involves a material")


def world(r, els):
    """Names and their compositions; parts are elements, formulas, other names."""
    chain = r.random() < .12
    n = r.randint(10, 40) if chain else r.randint(2, 9)
    names = ["mat %d" % i for i in range(n)]
    if r.random() < .3:
        names[0] = "H2O"            # a formula wins over a material of that name
    shape = r.choice(["dag", "dag", "dag", "cyclic", "unknown"])
    reg = {}
    for i, m in enumerate(names):
        parts = subset(r, els, 0, 3) + [matgen.formula(r, els) for _ in range(r.randint(0, 2))] + (names[i - 1:i] if chain else subset(r, names[:i], 0, 3) if i else [])
        parts = parts or [r.choice(els)]
        reg[m] = matgen.amounts(r, parts)
    if shape == "cyclic":
        a, b = r.choice(names), r.choice(names)
        if a != "H2O":
            reg[a][b if b != "H2O" else a] = r.random() + .1
    elif shape == "unknown":
        reg[r.choice(names)][r.choice(["Nope", "Qq2", "Fe2Zz", "mat 99"])] = r.random() + .1
    return names, reg, shape


def circular(reg, name, seen=()):
    return name in seen or any(circular(reg, p, seen + (name,)) for p in reg.get(name, {}) if p in reg)


def deep(c, D, h, r):
    """Materials made of each of the two before them, and long chains: resolved in one go or from an additional list."""
    for kind, n in (("ladder", r.randint(30, 60)), ("chain", c.size(2500, 6000))):
        D.call("E.removeMaterials", h)
        want, cmds = [{"Fe": 1.0}, {"O": .5, "Fe": .5}], []
        extra = r.random() < .5 and kind == "ladder"
        for i in range(n):
            if kind == "ladder":
                comp = {"Fe": 1.0} if i == 0 else {"O": 2.0, "Fe": 2.0} if i == 1 else {"step %d" % (i - 1): 3.0, "step %d" % (i - 2): 3.0}
                if i > 1:
                    want.append({k: (want[i - 1].get(k, 0) + want[i - 2].get(k, 0)) / 2 for k in ("Fe", "O")})
            else:
                comp = {"O": 1.0, "Fe": 1.0} if i == 0 else {"step %d" % (i - 1): 1.0}
            if extra:
                cmds += [["mat.new", "s%d" % i, "step %d" % i, 1.0, 1.0, ""], ["mat.compM", "s%d" % i, comp]]
            else:
                cmds += [["E.addMaterialS", h, "step %d" % i, 1.0, 1.0, "", 1], ["E.setCompM", h, "step %d" % i, comp]]
        c.context = [kind, n, extra]
        for g in D.batch(cmds):
            c.expect(not isinstance(g, LibError), "refused", "a material of a %s was refused: %s" % (kind, g))
        last, w = "step %d" % (n - 1), want[-1] if kind == "ladder" else {"O": .5, "Fe": .5}
        cmd = ["E.compM", h, last, ["s%d" % i for i in range(n)]] if extra else ["E.comp", h, last]
        judge(c, [cmd[0], last], D.attempt(*cmd), w, "composition", 1e-9, 1e-15)
        c.case((kind, n, extra), kind)
        # made of itself at the far end
        q = ["mat.compM", "s0", {last: 1.0}] if extra else ["E.setCompM", h, "step 0", {last: 1.0, "Fe": 1.0}]
        D.call(*q)
        g = D.attempt(*cmd)
        c.expect(isinstance(g, LibError) or g == {}, "circular", "a %s of %d materials that ends in itself gave %s" % (kind, n, _j(g)))
        c.case((kind, n, extra, "circular"), kind + "_circular")
    D.call("E.removeMaterials", h)


def work(c, w):
    r, D = c.rng, c.driver()
    lab = Lab(c, "default", driver=D)
    R = lab.R
    els = R.order[:98]
    h = lab.h
    deep(c, D, h, r)
    for run in range(c.size(250, 2500)):
        names, reg, shape = world(r, els if r.random() < .5 else els[:12])
        D.call("E.removeMaterials", h)
        R.materials = {}
        for m in names:
            D.call("E.addMaterialS", h, m, 1.0, 1.0, "", 1)
            D.call("E.setCompM", h, m, reg[m])
            R.materials[m] = {"comp": reg[m]}
        c.context = [run, shape, reg]
        cmds = []
        for q in names + ["Nope", "", r.choice(matgen.COMMON), matgen.formula(r, els), r.choice(els)]:
            cmds.append((["E.comp", h, q], attempt(R.comp, q), q in names))
        # additional materials: shadow the registered ones, or use them
        nm, add, sh2 = world(r, els[:20])
        extra = [(q, add[q]) for q in nm if r.random() < .7]
        if r.random() < .5:
            # parts that only the registry knows
            extra = [(q, dict(d, **({r.choice(names): .5} if shape == "dag" else {}))) for q, d in extra]
        r.shuffle(extra)
        both = set(p for q, d in extra for p in d if p.startswith("mat ") and p not in dict(extra) and p not in reg) or sh2 == "unknown"
        mats = [["m%d" % i, q, d] for i, (q, d) in enumerate(extra)]
        handles = []
        for i, (q, d) in enumerate(extra):
            D.call("mat.new", "m%d" % i, q, 1.0, 1.0, "")
            D.call("mat.compM", "m%d" % i, d)
            handles.append("m%d" % i)
        if not (both and sh2 == "cyclic") and shape != "unknown":
            for q in [x for x, d in extra] + [r.choice(names), "Nope", r.choice(matgen.COMMON)]:
                cmds.append((["E.compM", h, q, handles], attempt(R.comp_with, q, extra), True))
            d = matgen.amounts(r, subset(r, [x for x, y in extra] + names[:2] + els[:10], 1, 4))
            cmds.append((["E.compMM", h, d, handles], attempt(R.comp_with, d, extra), True))
        for (cmd, w, mat), g in zip(cmds, D.batch([x[0] for x in cmds])):
            c.context = [run, shape, reg, extra, cmd]
            if isinstance(g, LibError) or isinstance(w, RefError):
                # something that cannot be resolved: refused or empty
                c.expect((isinstance(g, LibError) or g == {}) and (isinstance(w, RefError) or w == {}), "unresolved",
                         "%s gave %s, expected %s" % (_j(cmd), _j(g), _j(w)))
                c.case((run, _j(cmd)), "unresolved")
                continue
            judge(c, cmd, g, w, "composition", 1e-9, 1e-15)
            if g:
                c.expect(close(sum(g.values()), 1.0, 1e-9), "normalised", "%s sums up to %r" % (_j(cmd), sum(g.values())))
                c.expect(all(v > 0 and k in R.el for k, v in g.items()), "elements", "%s gave %s" % (_j(cmd), _j(g)))
            c.case((run, _j(cmd)) if mat else None, "resolved" if w else "empty")
        c.count(shape)
        if run == 0:
            c.sample({"registry": reg, "queries": [[x[0], x[1] if not isinstance(x[1], RefError) else "refused"] for x in cmds[:3]]})


def main(c):
    c.spread(work)


if __name__ == "__main__":
    Check("C15", RULE).run(main)
