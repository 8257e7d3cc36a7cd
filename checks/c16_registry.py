"""C16: the material registry is a named collection."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import matgen
RULE = ("random sequences of adding (by name or as object), replacing, recomposing, copying, creating and removing materials with valid and invalid "
        "arguments against a dictionary; after every operation the whole registry is read back; a case is one operation")
NAMES = ["Steel", "Brass", "H2O", "SiO2", "Fe", "My soil", "air", "Kapton?", "a", "Fe2O3", "mat/1", "Water (liquid)", "Fe2", "CaCO3", "Steel2", "steel"]


def number(r):
    m = r.random()
    return r.choice([0.0, -1.0, -1e-9]) if m < .12 else r.choice([1.0, r.uniform(.001, 25), 10 ** r.uniform(-6, 3)])


def composition(r, els):
    n = r.randint(0 if r.random() < .1 else 1, 5)
    names = [r.choice(els + ["SiO2", "Steel", "NoSuch", "Fe2O3"]) for _ in range(n)]
    if r.random() < .7:
        names = list(dict.fromkeys(names))
    unit = 10 ** r.uniform(-20, 20) if r.random() < .12 else 1.0
    amounts = [unit * r.choice([r.uniform(.01, 1), r.uniform(1, 60), 1.0, 1.0]) for _ in names]
    bad = False
    if amounts and r.random() < .15:
        amounts[r.randrange(len(amounts))] = r.choice([0.0, -.5])
        bad = True
    if r.random() < .1:
        if r.random() < .5 and amounts:
            amounts.pop()
        else:
            amounts.append(1.0)
        bad = True
    return names, amounts, bad


def norm(names, amounts):
    out, t = {}, sum(amounts)
    for n, a in zip(names, amounts):
        out[n] = out.get(n, 0.0) + a / t
    return out


def work(c, w):
    r, D = c.rng, c.driver()
    lab = Lab(c, "default", driver=D)
    R = lab.R
    els = R.order[:30]
    h = "W"
    for run in range(c.size(18, 200)):
        D.call("E.copy", h, lab.h)
        reg, objs = {}, {}
        names = r.sample(NAMES, r.randint(2, 7))

        def auto(name):
            return R.formula(name)
        for step in range(c.size(60, 150)):
            name = r.choice(names)
            op = r.choice(["add", "add", "addobj", "addobj", "comp", "comp", "compv", "remove", "clear", "create", "object", "objcomp", "objname", "copyback"])
            ok, cmd, new = True, None, dict(reg)
            if op == "add":
                d, t, cm, err = number(r), number(r), r.choice(["", "a comment", "x" * 40, "\u00e9\"'"]), r.randint(0, 1)
                nm = name if r.random() < .95 else ""
                ok = nm != "" and d > 0 and t > 0 and not (err and nm in reg)
                cmd = ["E.addMaterialS", h, nm, d, t, cm, err]
                if ok:
                    new[nm] = {"name": nm, "density": d, "thickness": t, "comment": cm, "comp": auto(nm)}
            elif op == "object":
                d, t, cm = number(r), number(r), r.choice(["", "obj"])
                k = "m%d" % r.randint(0, 3)
                ok = d > 0 and t > 0
                if r.random() < .4:
                    # a material built first and described later
                    D.call("mat.new", k)
                    objs[k] = {"name": "Unset name", "density": 1.0, "thickness": 1.0, "comment": "", "comp": {}}
                    cmd = ["mat.init", k, name, d, t, cm]
                    if ok:
                        objs[k] = {"name": name, "density": d, "thickness": t, "comment": cm, "comp": {}}
                else:
                    cmd = ["mat.new", k, name, d, t, cm]
                    if ok:
                        objs[k] = {"name": name, "density": d, "thickness": t, "comment": cm, "comp": {}}
            elif op == "objcomp" and objs:
                k = r.choice(sorted(objs))
                ns, am, bad = composition(r, els)
                if r.random() < .5 and not bad and len(set(ns)) == len(ns):
                    cmd = ["mat.compM", k, dict(zip(ns, am))]
                else:
                    cmd = ["mat.compV", k, ns, am]
                ok = not bad
                if ok:
                    objs[k] = dict(objs[k], comp=norm(ns, am))
            elif op == "objname" and objs:
                # a name can be given once, to a material that has none
                k = r.choice(sorted(objs))
                if r.random() < .5:
                    D.call("mat.new", k)
                    objs[k] = {"name": "Unset name", "density": 1.0, "thickness": 1.0, "comment": "", "comp": {}}
                cmd = ["mat.setName", k, name]
                ok = objs[k]["name"] == "Unset name"
                if ok:
                    objs[k] = dict(objs[k], name=name)
            elif op == "addobj" and objs:
                k = r.choice(sorted(objs))
                err = r.randint(0, 1)
                cmd = ["E.addMaterial", h, k, err]
                ok = not (err and objs[k]["name"] in reg)
                if ok:
                    new[objs[k]["name"]] = dict(objs[k])
            elif op in ("comp", "compv"):
                ns, am, bad = composition(r, els)
                if op == "comp":
                    if len(ns) != len(am):
                        continue
                    d = dict(zip(ns, am))
                    ns, am = list(d), list(d.values())
                    bad = any(v <= 0 for v in am)
                    cmd = ["E.setCompM", h, name, d]
                else:
                    cmd = ["E.setCompV", h, name, ns, am]
                ok = name in reg and not bad
                if ok:
                    new[name] = dict(reg[name], comp=norm(ns, am))
            elif op == "remove":
                cmd = ["E.removeMaterial", h, name]
                ok = name in reg
                new.pop(name, None)
            elif op == "clear":
                if r.random() < .7:
                    continue
                cmd = ["E.removeMaterials", h]
                new = {}
            elif op == "create":
                d, t = number(r), number(r)
                cmd = ["E.create", h, name, d, t, "made"]
                ok = d > 0 and t > 0
                g = D.attempt(*cmd)
                c.expect(isinstance(g, LibError) != ok, "create:" + ("refused" if ok else "accepted"), "%s gave %s" % (_j(cmd), _j(g)))
                if ok:
                    c.same(g, {"name": name, "density": d, "thickness": t, "comment": "made", "comp": auto(name)}, "create", "%s " % _j(cmd), 1e-12)
                c.case((run, step), "create")
                cmd = None
            elif op == "copyback":
                # a copy lives on its own
                D.call("E.copy", "W2", h)
                D.attempt("E.addMaterialS", "W2", "only in the copy", 2.0, 3.0, "", 1)
                D.attempt("E.removeMaterial", "W2", name)
                D.call("E.del", "W2")
                c.case((run, step), "copy")
            if cmd:
                c.context = [run, step, cmd]
                g = D.attempt(*cmd)
                c.expect(isinstance(g, LibError) != ok, op + (":refused" if ok else ":accepted"), "%s %s" % (_j(cmd), "is refused: %s" % g if ok else "is accepted"), {"registry": reg})
                if ok:
                    reg = new
                c.case((run, step, op, ok), op + ("" if ok else "_refused"))
            # read everything back
            cmds = [["E.materials", h]] + [["E.material", h, n] for n in sorted(set(names) | set(reg))] + [["E.materialCopy", h, n] for n in sorted(reg)]
            got = D.batch(cmds)
            c.same(sorted(got[0]) if not isinstance(got[0], LibError) else got[0], sorted(reg), "names", "registered names after %s " % _j(cmd or op))
            for q, g in zip(cmds[1:], got[1:]):
                n = q[2]
                if n not in reg:
                    c.expect(isinstance(g, LibError), "ghost", "%s answers although it is not registered: %s" % (n, _j(g)))
                else:
                    c.same(g, reg[n], "content", "%s after %s " % (_j(q), _j(cmd or op)), 1e-12)
            for k, o in objs.items():
                if r.random() < .2:
                    c.same(D.attempt("mat.get", k), o, "object", "material object %s after %s " % (k, _j(cmd or op)), 1e-12)
            c.count("answers_compared", len(cmds))
        c.sample({"run": run, "registry": reg})


def main(c):
    c.spread(work)


if __name__ == "__main__":
    Check("C16", RULE).run(main)
