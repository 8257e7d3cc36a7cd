"""C14: chemical formulas."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import matgen
RULE = ("formulas generated from the grammar (symbols, integer/decimal amounts, nested groups with or without amount, repeated symbols), "
        "a list of real ones, and mutations of them; atoms and mass fractions compared with an independent parser; a case is one string, "
        "non-trivial when its text is new")


def mutate(r, s):
    s = list(s)
    for k in range(r.randint(1, 3)):
        m = r.random()
        i = r.randrange(len(s) + 1)
        if m < .35 and s:
            del s[min(i, len(s) - 1)]
        elif m < .8:
            s.insert(i, r.choice(list("()(). 0123456789aeFHO-+*,;[]\t_") + ["Zz", "()", ")(", "E5", "1e3", "Xx"]))
        elif len(s) > 1:
            j = r.randrange(len(s))
            s[j], s[min(i, len(s) - 1)] = s[min(i, len(s) - 1)], s[j]
    return "".join(s)


def work(c, w):
    r, D = c.rng, c.driver()
    lab = Lab(c, "default", driver=D)
    R = lab.R
    els = R.order[:98]
    texts = list(matgen.COMMON) + els + [e + "2" for e in els]
    texts += [matgen.formula(r, r.choice([els, els[:20], ["H", "O", "C", "Co", "CO"[:1], "N", "Fe", "F"]])) for _ in range(c.size(2500, 40000))]
    texts += ["(" * k + "Fe2" + ")2" * k for k in (1, 2, 5, 9)] + ["(Fe)" * k for k in (2, 3, 12)] + ["(H(O(Fe)2)3)4(H)"]
    bad = ["", " ", "()", "(", ")", "Fe(", "Fe)", "Fe)2(H", ")Fe(", "(Fe", "2Fe", "fe", "Fe2 O3", "Fe-2", "H-2O", "Fe1.5.2", "H1e5", "1", ".", "Fe.", "Fe..5",
           "(Fe)(", "Fe2O3 ", " Fe", "Fe2O3)", "((Fe)", "(Fe))", "Fe()", "Fe()2", "Fe(2)", "(2)Fe", "Qq", "FeQq2", "Fe2o3", "Fe+2", "H2O*", "Fe,O", "H\t2", "Fe2\n", "H0"]
    nb = len(texts)
    muts = [mutate(r, r.choice(texts[:nb])) for _ in range(c.size(1500, 30000))]
    cmds = []
    for t in texts + bad + muts:
        cmds += [["E.parse", lab.h, t], ["E.formulaComp", lab.h, t]]
    got = batch(c, D, cmds)
    for i, t in enumerate(texts + bad + muts):
        gp, gc = got[2 * i], got[2 * i + 1]
        c.context = t
        want = ref.parse_formula(t)
        fam = "valid" if want else "malformed"
        if isinstance(gp, LibError) or isinstance(gc, LibError):
            c.fail("raised:" + fam, "formula %r raised %s" % (t, gp if isinstance(gp, LibError) else gc))
            continue
        d = diff(gp, want or {}, 1e-9, 1e-14)
        c.expect(d is None, "atoms:" + fam, "atoms of %r: %s" % (t, d), [gp, want])
        wc = R.formula(t)
        d = diff(gc, wc, 1e-9, 1e-14)
        c.expect(d is None, "fractions:" + fam, "mass fractions of %r: %s" % (t, d), [gc, wc])
        if gc:
            c.expect(close(sum(gc.values()), 1.0, 1e-9), "normalised", "mass fractions of %r sum up to %r" % (t, sum(gc.values())))
        c.case(t, fam)
    c.sample({"formula": texts[nb - 5], "atoms": got[2 * (nb - 5)], "mass fractions": got[2 * (nb - 5) + 1]})
    c.sample({"malformed": muts[0], "answer": got[2 * (nb + len(bad))]})
    # long formulas, what they contain is known from how they are written
    long = []
    for k in [r.randint(2, 60), r.randint(200, 900), 1500, c.size(9000, 20000)]:
        long += [("(" * k + "Fe2O" + ")" * k, {"Fe": 2.0, "O": 1.0}), ("(SiO2)" * k, {"Si": k, "O": 2 * k}), ("H2OFe.5" * k, {"H": 2 * k, "O": k, "Fe": .5 * k}), ("(" * k + "Fe" + ")" * (k - 1), {}),
                 ("Fe" + ")" * k, {}), ("Fe(" * k, {}), ("(Si(O)2" * k + ")" * k, {"Si": k, "O": 2 * k}), ("a" * k, {}), ("F" * k, {"F": k}), ("Fe" + "e" * k, {"Fe" + "e" * k: 1.0})]
    for m in (3, 30, 300):
        long.append(("(" * m + "Mg3" + ")2" * m, {"Mg": 3 * 2.0 ** m}))
    for (t, want), g in zip(long, batch(c, D, [["E.parse", lab.h, t] for t, w in long])):
        c.context = [t[:60], len(t)]
        d = "raised %s" % g if isinstance(g, LibError) else diff(g, want, 1e-9, 1e-14)
        c.expect(d is None, "atoms:long", "atoms of the formula %s... of %d characters: %s" % (t[:40], len(t), d))
        c.case((t[:40], len(t)), "long")
    # equivalences that do not need the parser model
    for k in range(c.size(200, 3000)):
        f = matgen.formula(r, els)
        n = r.randint(2, 9)
        a, b = D.attempt("E.formulaComp", lab.h, f), D.attempt("E.formulaComp", lab.h, "(%s)%d" % (f, n))
        c.expect(diff(a, b, 1e-9, 1e-14) is None, "group-scale", "(%s)%d differs from %s: %s" % (f, n, f, diff(a, b, 1e-9, 1e-14)))
        g = matgen.formula(r, els)
        a, b = D.attempt("E.parse", lab.h, f + g), D.attempt("E.parse", lab.h, "(%s)(%s)" % (g, f))
        c.expect(diff(a, b, 1e-9, 1e-14) is None, "concatenation", "%s and (%s)(%s) differ: %s" % (f + g, g, f, diff(a, b, 1e-9, 1e-14)))
        c.case((f, g), "equivalences")


def main(c):
    c.spread(work)


if __name__ == "__main__":
    Check("C14", RULE).run(main)
