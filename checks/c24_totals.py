"""C24: the reported rates are consistent with their reported parts."""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import xrfgen
RULE = ("random layered setups and requests at each enhancement level: sums of contributions, totals, escape shares, the tertiary correction recomputed from the "
        "reported contributions, finiteness and signs; a case is one line of one answer")


def main(c):
    build.build("plain")
    c.datadir(1 + c.seed % 3)
    c.fork(8, worker)


def worker(c, w):
    r, D = c.rng, c.driver("plain")
    lab = Lab(c, ["default", "pymca"][w % 2], driver=D)
    G = xrfgen.Gen(lab, r, [s for s in lab.R.order[10:83]])
    t0 = time.time()
    run = 0
    while run < c.size(120, 100000) and time.time() - t0 < c.size(12, 500):
        run += 1
        cfg = G.config(nlayers=r.choice([3] * 15 + [7]), nmax=3, nray=2, thick=r.choice([-1, -2]), thin=-4)
        if r.random() < .7 and not cfg["detector"].get("comp"):
            cfg["detector"].update(own=False, mat=r.choice(["Si", "Ge", "CdTe", "GaAs"]), density=r.uniform(2, 6), thickness=r.uniform(.01, 1), funny=1.0)
            cfg["detector"]["comp"] = lab.R.comp(cfg["detector"]["mat"])
        c.context = xrfgen.slim(cfg)
        G.apply(cfg)
        for k in range(2):
            req = G.requests(cfg, r.randint(1, 4), .05)
            sec = r.choice([0, 1, 2, 2, 2])
            cmd = G.fluo(req, sec, r.choice([1, 1, 0]), r.choice([1, 1, 1, 0]), r.choice([0.0, 0.0, 10 ** r.uniform(-6, -1)]))
            g = D.attempt(*cmd)
            if isinstance(g, LibError):
                c.fail("raised", "%s raised %s" % (_j(cmd), g))
                continue
            judge_answer(c, _j(cmd), g, sec, D, (w, run, k), bool(cfg["detector"].get("comp")))
    c.sample(xrfgen.slim(cfg))


def judge_answer(c, cmd, g, sec, D, tag, hasdet):
    g = xrfgen.clean(g)
    fac, near = {}, False
    if sec > 1:
        for key, layers in g.items():
            for i, node in layers.items():
                for line, x in node.items():
                    if " " in line or not x["primary"] > 0:
                        continue
                    f = (x["primary"] + x["secondary"]) / x["primary"]
                    near |= abs(f - 1.01) < 1e-6 or abs(x["massFraction"] - 5e-3) < 1e-9
                    if f >= 1.01 and x["massFraction"] >= 5e-3:
                        fac["%s %s %02d" % (key.split(" ")[0], line, i)] = f
    for key, layers in g.items():
        for i, node in layers.items():
            kids = {}
            for line in node:
                if " " in line:
                    kids.setdefault(line.split(" ")[0], []).append(line)
            for p in kids:
                c.expect(p in node, "orphan", "%s: '%s' layer %d has %s without its parent" % (cmd, key, i, kids[p]))
            for line, x in node.items():
                where = "%s: '%s' layer %d line '%s': " % (cmd, key, i, line)
                extra = {k: v for k, v in x.items() if k not in xrfgen.KNOWN_FIELDS}
                for k, v in x.items():
                    c.expect(math.isfinite(v), "finite", where + "%s is %r" % (k, v))
                for k in ("rate", "primary", "efficiency", "mu_1_i", "massFraction", "ratio"):
                    c.expect(x.get(k, 0.0) >= 0, "negative", where + "%s is %r" % (k, x.get(k)))
                if sec < 2:
                    c.expect("tertiary" not in x, "level", where + "has a tertiary part, enhancement level is %d" % sec)
                if sec < 1:
                    c.expect(not x.get("secondary") and not extra, "level", where + "has enhancement %r although not asked for" % {k: x[k] for k in x if k == "secondary" or k in extra})
                if " " in line:
                    continue
                c.case((tag, key, i, line), "lines")
                s = x.get("secondary", 0.0)
                mag = sum(abs(v) for v in extra.values())
                c.expect(abs(sum(extra.values()) - s) <= 1e-9 * mag + 1e-290, "contributions", where + "secondary is %r, the contributions add up to %r" % (s, sum(extra.values())))
                total = x["primary"] + s
                t = x.get("tertiary", 0.0)
                if sec > 1 and not near:
                    f = total / x["primary"] if x["primary"] > 0 else 1.0
                    want = sum(v * (fac[k] - 1) for k, v in extra.items() if k in fac) if f >= 1.01 else 0.0
                    tm = sum(abs(v * fac[k]) for k, v in extra.items() if k in fac)
                    c.expect("tertiary" in x or not want, "tertiary", where + "no tertiary part, expected %r" % want)
                    c.expect(abs(t - want) <= 1e-8 * tm + 1e-290, "tertiary", where + "tertiary is %r, its contributions and factors give %r" % (t, want))
                    if want:
                        c.count("tertiary")
                ratios = sum(node[k]["ratio"] for k in kids.get(line, []))
                want = (1 - ratios) * x["efficiency"] * (total + t)
                c.expect(runner.close(x["rate"], want, 1e-8, 1e-290), "rate", where + "rate is %r, expected %r (primary %r secondary %r tertiary %r efficiency %r escapes %r)" % (x["rate"], want, x["primary"], s, t, x["efficiency"], ratios))
                if not hasdet:
                    c.expect(not kids.get(line), "escape", where + "has escape peaks without a detector")
                    continue
                esc = D.attempt("det.escape", "det", x["energy"], "E", "", 1)
                if isinstance(esc, LibError):
                    c.fail("escape:raised", where + "escape raised %s" % esc)
                    continue
                c.expect(set("%s %s" % (line, k) for k in esc) == set(kids.get(line, [])), "escape:set", where + "escape peaks %r, expected %r" % (sorted(kids.get(line, [])), sorted(esc)))
                for k in kids.get(line, []):
                    y = node[k]
                    wk = where + "escape '%s': " % k
                    e = esc.get(k.split(" ", 1)[1], {})
                    c.count("escapes")
                    c.expect(runner.close(y["energy"], e.get("energy"), 1e-9), "escape:energy", wk + "energy %r, expected %r" % (y["energy"], e.get("energy")))
                    c.expect(y["energy"] < x["energy"], "escape:energy", wk + "energy %r is not below %r" % (y["energy"], x["energy"]))
                    c.expect(runner.close(y["ratio"], e.get("rate"), 1e-9), "escape:ratio", wk + "ratio %r, expected %r" % (y["ratio"], e.get("rate")))
                    for f in ("primary", "secondary", "tertiary"):
                        if f in y or x.get(f):
                            c.expect(runner.close(y.get(f, 0.0), y["ratio"] * x.get(f, 0.0), 1e-8, 1e-290), "escape:" + f, wk + "%s is %r, expected %r" % (f, y.get(f), y["ratio"] * x.get(f, 0.0)))
                    c.expect(runner.close(y["rate"], y["ratio"] * x["efficiency"] * (total + t), 1e-8, 1e-290), "escape:rate", wk + "rate is %r, expected %r" % (y["rate"], y["ratio"] * x["efficiency"] * (total + t)))


if __name__ == "__main__":
    Check("C24", RULE).run(main)
