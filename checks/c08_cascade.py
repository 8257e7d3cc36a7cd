"""C08: vacancy cascade and emitted lines."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import shellgen as G
RULE = ("vacancy distributions (single shell, random subsets, all shells, zero entries, N shells ignored) x library elements of two data "
        "sets and user-built elements with random shells (also non contiguous), with and without cascade / yields; line energies and "
        "emitted lines at and around every edge; a case is one answered query, non-trivial when some vacancy exists")


def dist(r, extra=True):
    m = r.random()
    if m < .35:
        d = {r.choice(SHELLS): r.choice([1.0, r.random()])}
    elif m < .85:
        d = {s: r.random() for s in subset(r, SHELLS, 1, 9)}
    else:
        d = {s: r.random() for s in SHELLS}
    for k in list(d):
        if r.random() < .08:
            d[k] = 0.0
    return d


def user_element(r, D, i):
    name = "U%d" % i
    keep = SHELLS if r.random() < .6 else sorted(subset(r, SHELLS, 1, 8), key=SHELLS.index)
    x, b = r.uniform(20, 90), {}
    for s in SHELLS + ["N1", "N2", "N3", "N5", "N7", "O1"]:
        x *= r.uniform(.3, .95)
        if s in keep or s[0] in "NO":
            b[s] = float("%.6f" % x)
    for s in ("N5", "N7", "O1"):
        if r.random() < .4:
            b[s] = 0.0
    D.call("el.new", name, name, 90)
    if r.random() < .5:
        D.call("el.bindm", name, b)
    else:
        ks = r.sample(list(b), len(b))
        D.call("el.bindv", name, ks, [b[k] for k in ks])
    e = ref.RefElement(name, 90)
    e.set_binding(b)
    shell_data(r, D, name, e, keep)
    if r.random() < .15:
        # binding energies given again: the shells start afresh
        b = {k: v for k, v in b.items() if k not in SHELLS or k in subset(r, keep, 1, 9)}
        D.call("el.bindm", name, b)
        e.set_binding(b)
        shell_data(r, D, name, e, [s for s in keep if s in b and r.random() < .8])
    return name, e


def shell_data(r, D, name, e, keep):
    for s in keep:
        for again in range(r.choice([1, 1, 1, 2])):
            p = G.rad(r, s)
            # the transition must have an energy: the filling shell less bound
            p = [(k, v) for k, v in p if k.upper() == "TOTAL" or len(k) - len(s) >= 1]
            if r.random() < .6:
                D.call("el.radv", name, s, [k for k, v in p], [v for k, v in p])
            else:
                D.call("el.radm", name, s, dict(p))
                p = sorted(dict(p).items())
            e.shells[s].set_rad(p)
            p = G.non(r, s)
            if r.random() < .6:
                D.call("el.nonm", name, s, dict(p))
            else:
                D.call("el.nonv", name, s, [k for k, v in p], [v for k, v in p])
            e.shells[s].set_non(sorted(dict(p).items()))
            k = G.consts(r, s)
            D.call("el.setConst", name, s, k)
            e.shells[s].set_const(k)


def readback(c, D, name, e):
    """What was given to an element is what it tells about each shell."""
    cmds, want = [["el.bind", name]], [e.binding]
    for s, m in e.shells.items():
        cmds += [["el.fluo", name, s], ["el.lines", name, s], ["el.auger", name, s], ["el.ck", name, s], ["el.const", name, s], ["el.rad", name, s], ["el.non", name, s]]
        want += [m.fluo(), m.fluo(), m.auger(), m.ck(), m.const, m.rad, m.non]
    for s in ["N1", "Q", ""] + [q for q in SHELLS if q not in e.shells]:
        for q in ("fluo", "lines", "auger", "ck", "const", "rad", "non"):
            cmds.append(["el." + q, name, s])
            want.append(ref.RefError("no such shell"))
    for cmd, g, w in zip(cmds, D.batch(cmds), want):
        c.context = [cmd, e.binding]
        judge(c, cmd, g, w, "readback", 1e-9, 1e-15)
        c.case((name, cmd[0], cmd[-1]), "readback")


def run(c, pre, post, e, r, D, n, tag):
    """pre/post: how to address the element in a command."""
    cmds, want = [], []
    for k in range(n):
        d = dist(r)
        cas, yld = r.choice([0, 1]), r.choice([0, 1])
        cmds.append([pre + "cascade"] + post + [d])
        want.append(e.cascade(d))
        cmds.append([pre + "fromvac"] + post + [d, cas, yld])
        want.append(attempt(e.fromvac, d, cas, yld))
    for k in range(n // 2 + 1):
        x = energy(r, e, .05, 200.)
        cmds.append([pre + "emitted"] + post + [x])
        want.append(attempt(e.emitted, x))
    for cmd, g, w in zip(cmds, D.batch(cmds), want):
        c.context = [tag, cmd, {"binding": e.binding}]
        judge(c, cmd, g, w, cmd[0].split(".")[1], 2e-9, 1e-18)
        c.case((tag, cmd[0], _j(cmd[-1])), cmd[0].split(".")[1])
        if cmd[0].endswith("cascade") and not isinstance(g, LibError):
            d = cmd[-1]
            ok = all(g[k] >= d.get(k, 0.0) - 1e-12 for k in g)
            c.expect(ok, "cascade-loses", "the cascade removed vacancies: %r -> %r" % (d, g))
        if cmd[0].endswith("fromvac") and not isinstance(g, LibError):
            ok = all(v["rate"] > 0 for v in g.values())
            c.expect(ok, "line-sign", "a line with a non positive rate: %s" % _j(g))


def work(c, w):
    r, D = c.rng, c.driver()
    for mode in ("default", "pymca"):
        lab = Lab(c, mode, driver=D, handle="E" + mode)
        els = lab.R.order if c.thorough else subset(r, lab.R.order, 45, 45)
        for el in els:
            e = lab.R.el[el]
            run(c, "E.", [lab.h, el], e, r, D, c.size(4, 20), mode)
            # one vacancy in each shell: exhaustive over the shells
            keys = [s for s in SHELLS if s in e.shells]
            cmds = [["E.cascade", lab.h, el, {s: 1.0}] for s in keys] + [["E.fromvac", lab.h, el, {s: 1.0}, 1, 1] for s in keys]
            want = [e.cascade({s: 1.0}) for s in keys] + [attempt(e.fromvac, {s: 1.0}, 1, 1) for s in keys]
            for cmd, g, w in zip(cmds, D.batch(cmds), want):
                judge(c, cmd, g, w, cmd[0].split(".")[1], 2e-9, 1e-18)
                c.case((mode, el, cmd[0], _j(cmd[3])), "single")
        c.sample({"mode": mode, "element": el, "cascade of a K vacancy": D.attempt("E.cascade", lab.h, el, {"K": 1.0}) if "K" in e.shells else None})
        D.call("E.del", lab.h)
    for i in range(c.size(120, 2500)):
        name, e = user_element(r, D, i)
        run(c, "el.", [name], e, r, D, 5, "user")
        readback(c, D, name, e)
        labs = [s + t for s in e.shells for t in subset(r, G.above(s), 1, 3)] + ["K", "KL", "L1", "XX", "N1O1", "Q9", "KZ9", ""]
        cmds = [["el.tenergy", name, l] for l in labs]
        for cmd, g in zip(cmds, D.batch(cmds)):
            c.context = [name, e.binding]
            judge(c, cmd, g, attempt(tenergy, e, cmd[2]), "transition-energy", 1e-12)
            c.case((name, cmd[2]), "transition_energy")


def tenergy(e, l):
    if len(l) in (3, 4) and e.binding.get(l[:2] if len(l) == 4 else l[:1], 0.0) > 0:
        return e.line_energy(l)
    raise RefError("transition")


def main(c):
    c.spread(work)


if __name__ == "__main__":
    Check("C08", RULE).run(main)
