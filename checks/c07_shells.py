"""C07: shell transition ratios and vacancy transfer probabilities."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import shellgen as G
RULE = ("histories of setting radiative and non radiative transitions and constants on shells K..M5 through every entry point, with "
        "upper/lower case labels, totals present or absent, rejected calls in between; after each step all the ratios and all the "
        "transfer probabilities are compared with the model; a case is one step, non-trivial when the shell has transitions")
DEST = SHELLS[1:] + ["N1", "N5", "O2"]


def observe(c, D, h, m, step):
    cmds = [["shell.fluo", h], ["shell.auger", h], ["shell.ck", h], ["shell.getConst", h], ["shell.yield", h], ["shell.rad", h], ["shell.non", h]]
    cmds += [["shell.transfer", h, d] for d in DEST]
    got = D.batch(cmds)
    want = [m.fluo(), m.auger(), m.ck(), m.const, m.const["omega"], m.rad, m.non] + [attempt(m.transfer, d) for d in DEST]
    # the Auger part is what the Coster-Kronig transitions leave of the total: rounding matters when that is little
    left = m.auger().get("TOTAL", 1.0)
    rel = max(1e-9, 1e-14 * abs(m.non.get("TOTAL", 0.0) / left)) if left else 1e-9
    for cmd, g, w in zip(cmds, got, want):
        if cmd[0] == "shell.transfer" and isinstance(w, dict) and isinstance(g, dict):
            # a decay channel that cannot happen may be left out
            g = {k: v for k, v in g.items() if v != 0 or k in w}
            w = {k: v for k, v in w.items() if v != 0 or k in g}
        judge(c, cmd, g, w, cmd[0].split(".")[1], rel if cmd[0] in ("shell.auger", "shell.transfer") else 1e-9, 1e-15)
        if cmd[0] == "shell.transfer" and not isinstance(g, LibError):
            ok = all(v >= -1e-12 and v == v for v in g.values())
            c.expect(ok, "transfer-range", "negative or undefined transfer probability %r" % g)
    if not isinstance(got[0], LibError) and got[0]:
        c.expect(close(sum(got[0].values()), 1.0, 1e-9), "fluo-sum", "fluorescence ratios sum up to %r" % sum(got[0].values()))
    return got


def snapshot(D, h):
    return [x if not isinstance(x, LibError) else str(x) for x in
            D.batch([["shell.fluo", h], ["shell.auger", h], ["shell.ck", h], ["shell.getConst", h], ["shell.rad", h], ["shell.non", h]])]


def work(c, w):
    r, D = c.rng, c.driver()
    for bad in ("", "L", "L0", "L4", "M0", "M6", "N1", "K1", "k", "l1", "LL", "L1 ", "Q"):
        g = D.attempt("shell.new", "x", bad)
        c.expect(isinstance(g, LibError), "name", "shell name %r accepted" % bad)
        c.case(("name", bad), "invalid_names")
    for it in range(c.size(260, 6000)):
        name = SHELLS[it % 9]
        h = "s"
        D.call("shell.new", h, name)
        m = ref.RefShell(name)
        hist = []
        for step in range(r.randint(3, 9)):
            op = r.choice(["rad", "rad", "non", "non", "const", "const", "bad"]) if step > 2 else ["rad", "non", "const"][step]
            if op == "rad":
                p = G.rad(r, name)
                how = r.choice(["radv", "radm", "radc"])
                if how == "radm":
                    D.call("shell.radm", h, dict(p))
                    p = sorted(p)
                else:
                    D.call("shell." + how, h, [k for k, v in p], [v for k, v in p])
                m.set_rad(p)
                hist.append([how, p])
            elif op == "non":
                p = G.non(r, name)
                how = r.choice(["nonv", "nonm", "nonc"])
                if how == "nonm":
                    D.call("shell.nonm", h, dict(p))
                else:
                    D.call("shell." + how, h, [k for k, v in p], [v for k, v in p])
                m.set_non(p)
                hist.append([how, p])
            elif op == "const":
                d = G.consts(r, name)
                if r.random() < .3 and step > 2:
                    d = {k: d[k] for k in subset(r, list(d), 1, len(d))}
                if r.random() < .07:
                    d["omega"] = 1.2
                D.call("shell.const", h, d)
                m.set_const(d)
                hist.append(["const", d])
            else:
                before = snapshot(D, h)
                kind = r.choice(["radv", "nonv", "const", "label", "label5", "dest"])
                if kind in ("radv", "nonv"):
                    p = G.rad(r, name) if kind == "radv" else G.non(r, name)
                    a, b = [k for k, v in p], [v for k, v in p]
                    if r.random() < .5:
                        a = a + ["%sN1" % name]
                    else:
                        b = b + [.5]
                    cmd = ["shell." + kind, h, a, b]
                elif kind == "const":
                    d = G.consts(r, name)
                    d[r.choice(["f99", "f%s" % name, "alpha", "f10"])] = .1
                    cmd = ["shell.const", h, d]
                elif kind == "label":
                    p = G.rad(r, name) + [(r.choice([s for s in SHELLS if s != name and not s.startswith(name)]) + "N1", .3)]
                    r.shuffle(p)
                    cmd = [r.choice(["shell.radv"]), h, [k for k, v in p], [v for k, v in p]]
                elif kind == "label5":
                    p = G.rad(r, name) + [((name + "XXXXX")[:5], .3)]
                    cmd = ["shell.radv", h, [k for k, v in p], [v for k, v in p]]
                else:
                    cmd = ["shell.transfer", h, r.choice(["", "K", "L", "L22", "N10"])]
                g = D.attempt(*cmd)
                c.expect(isinstance(g, LibError), "rejection:" + kind, "%s must be rejected" % _j(cmd))
                after = snapshot(D, h)
                c.expect(diff(after, before, 0, 0) is None, "rejection-state:" + kind, "a rejected call changed the shell: %s" % diff(after, before, 0, 0), [cmd, hist])
                c.count("rejections")
                hist.append(["rejected", cmd])
            c.context = [name, hist[-4:]]
            observe(c, D, h, m, step)
            c.case((name, len(m.rad), len(m.non), op, it), op)
        if it < 3:
            c.sample({"shell": name, "history": hist})


from common import _j
def main(c):
    c.spread(work)


if __name__ == "__main__":
    Check("C07", RULE).run(main)
