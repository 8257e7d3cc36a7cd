"""C28: the specfile reader returns exactly the scans of the file."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
RULE = ("specfiles written by a generator (line endings, comments, blank lines, spacing, number notation, missing final line end) and read back through the "
        "library in random order of the queries and of the files, every label and number compared exactly; a case is one scan read")
WORDS = ["Epoch", "Seconds", "Detector", "PhotonEnergy[keV]", "K[barn/atom]", "Two Words", "a", "I0", "x y z", "KL3", "mu/rho (cm2/g)", "#", "E", "L1(2s1/2)", "1", "0.5", "-"]


def number(r):
    m = r.random()
    if m < .25:
        return str(r.randint(-9, 9) if r.random() < .5 else r.randint(-10 ** 9, 10 ** 9))
    x = r.choice([r.uniform(-10, 10), r.gauss(0, 1) * 10 ** r.uniform(-300, 300), 10 ** r.uniform(-5, 5), 0.0])
    s = r.choice(["%.3f", "%r", "%.9E", "%.17g", "%g", "%e", "%.0E", "%+.6f", "%+.4e", "%.1f"])
    t = s % (x if abs(x) < 1e15 or "f" not in s else 1.5)
    if r.random() < .05 and t.startswith("0."):
        t = t[1:]
    elif r.random() < .05 and "." in t and "e" not in t.lower() and t.rstrip("0").endswith("."):
        t = t.rstrip("0")
    elif r.random() < .05:
        t = ("0" + t) if t[0].isdigit() else t
    if r.random() < .02:
        # written with many digits
        t = r.choice(["%.25e", "%.40E", "%.70f", "%.120e", "%+.30e"]) % (x if abs(x) < 1e15 else 1.5)
        t = ("0" * r.choice([20, 70, 300]) + t) if t[0].isdigit() and r.random() < .3 else t
    return t


def comment(r):
    return r.choice(["#C a comment", "#N 5", "#", "#D Mon Jan 1 2001", "#P0 1 2 3", "#U 1.0 2.0", "#@MCA %16C", "#s not a scan", "#l small", "#T 1", "#G0 0 0", "## S 3"])


def scan(r, i):
    ncol = r.choice([1, 1, 2, 2, 3, 4, 7, r.randint(1, 20)])
    nrow = r.choice([0, 1, 1, 2, 3, 5, 10, r.randint(0, 60)])
    if r.random() < .004:
        ncol, nrow = r.choice([(r.randint(60, 400), 2), (2, r.randint(200, 3000))])
    labels = []
    for k in range(ncol):
        w = r.choice(WORDS)
        labels.append(w if r.random() < .6 else w + str(k) if r.random() < .97 else w + "long" * r.choice([8, 40, 300]))
    lines = [r.choice(["#S %d" % (i + 1), "#S %d a title  with spaces" % r.randint(1, 999), "#S 1 #L no labels", "#S"])]
    for _ in range(r.choice([0, 0, 1, 2, 5])):
        lines.append(comment(r))
    haslabels = r.random() < .93
    if haslabels:
        lead = "" if labels[0].startswith(" ") else r.choice([" ", " ", " ", "  ", "    "])
        t = "#L" + lead
        for k, w in enumerate(labels):
            t += w + ((r.choice(["  ", "  ", "   ", "     "])) if k + 1 < ncol else r.choice(["", "", " ", "   "]))
        lines.append(t)
    rows = []
    for _ in range(nrow):
        if r.random() < .08:
            lines.append(comment(r))
        vals = [number(r) for _ in range(ncol)]
        sep = r.choice([" ", " ", "  ", "\t", " \t ", ", "]) if r.random() < .8 else None
        t = r.choice(["", "", "", " ", "   ", "\t"])
        for k, v in enumerate(vals):
            t += v + ((sep or r.choice([" ", "  ", "\t", ","])) if k + 1 < ncol else r.choice(["", "", "", " ", "  ", "\t"]))
        lines.append(t)
        rows.append([float(v) for v in vals])
    for _ in range(r.choice([0, 0, 0, 1])):
        lines.append(comment(r))
    return labels if haslabels else None, rows, lines


def make(r):
    eol = r.choice(["\n", "\n", "\r\n"])
    lines = []
    for _ in range(r.choice([0, 1, 3])):
        lines.append(r.choice(["#F name", "#E 12345", "#D date", "#C S 1", "some text", "", "1 2 3"]))
    if r.random() < .7 and lines:
        lines.append("")
    scans = []
    n = r.choice([0, 1, 1, 2, 3, 5, r.randint(1, 30)] if r.random() < .99 else [300])
    for i in range(n):
        l, rows, ls = scan(r, i)
        scans.append((l, rows))
        lines += ls
        # no blank line at all between two scans is accepted too
        if i + 1 < n:
            lines += [""] * r.choice([0, 1, 1, 1, 2, 3])
            if lines[-1] == "" and r.random() < .15:
                lines += [r.choice(["#C between two scans", "#L  stray  labels"]), ""]
    lines += [""] * r.choice([0, 0, 1, 2])
    text = eol.join(lines) + (eol if r.random() < .8 else "")
    return scans, text


def expected(op, f, i):
    scans = f
    if not 0 <= i < len(scans):
        return RefError("no such scan")
    if op == "spec.labels":
        return RefError("no labels") if scans[i][0] is None else scans[i][0]
    return scans[i][1]


def main(c):
    c.fork(8, work)


def work(c, w):
    r = c.rng
    D = c.driver()
    known = {}
    for run in range(c.size(400, 4000)):
        scans, text = make(r)
        p = c.write("w%d-%d.spec" % (w, run % 6), text)
        known[p] = scans
        h = "h%d" % r.randrange(3)
        m = r.random()
        if m < .4:
            D.call("spec.new", h, p)
        else:
            # an object that may have read another file before
            if h not in work.__dict__.setdefault("seen", {}):
                D.call("spec.new", h)
                c.same(D.call("spec.n", h), 0, "empty", "scans of an object without file ")
            if r.random() < .15:
                D.call("spec.file", h, os.path.join(c.scratch(), "missing.spec"))
                c.same(D.call("spec.n", h), 0, "missing", "scans of a file that does not exist ")
                for op in ("spec.labels", "spec.data"):
                    judge(c, [op, h, 0], D.attempt(op, h, 0), RefError("no scan"), "missing")
            D.call("spec.file", h, p)
        work.__dict__.setdefault("seen", {})[h] = 1
        c.same(D.call("spec.n", h), len(scans), "number", "%s: number of scans " % p)
        qs = [(op, h, i) for i in range(len(scans)) for op in ("spec.labels", "spec.data")]
        qs += [(op, h, i) for i in (-1, len(scans), len(scans) + 7, 2 ** 31 - 1, -2 ** 31) for op in ("spec.labels", "spec.data")]
        r.shuffle(qs)
        for q, g in zip(qs, D.batch([list(q) for q in qs])):
            want = expected(q[0], scans, q[2])
            c.context = {"file": p, "scan": q[2]}
            judge(c, list(q), g, want, q[0], 0.0, 0.0)
            c.case((w, run, q[0], q[2]), q[0] + (":refused" if isinstance(want, RefError) else ""))
            if q[0] == "spec.data" and not isinstance(want, RefError):
                c.count("numbers", sum(len(x) for x in want))
        # a row of another length is refused, the other scans stay readable
        full = [i for i, s in enumerate(scans) if len(s[1]) > 1]
        if full and r.random() < .5:
            i = r.choice(full)
            n = len(scans[i][1][0])
            k = r.randrange(1, len(scans[i][1]))
            rows = ["#S 1", "#L a  b"]
            for j, row in enumerate(scans[i][1]):
                vals = ["%r" % v for v in row]
                if j == k:
                    vals = vals + ["1"] if n == 1 or r.random() < .5 else vals[:-1]
                rows.append(" ".join(vals))
            q = c.write("w%d-bad.spec" % w, "\n".join(rows + ["", "#S 2", "#L x  y", "1 2", "3 4"]) + "\n")
            D.call("spec.new", "bad", q)
            judge(c, ["spec.data", "bad", 0], D.attempt("spec.data", "bad", 0), RefError("ragged"), "ragged")
            c.same(D.attempt("spec.data", "bad", 1), [[1, 2], [3, 4]], "after-ragged", "the scan after a ragged one ")
            c.case((w, run, "ragged"), "ragged")
        # one object still answers for its file after others were opened
        c.sample({"text": text[:400]})


if __name__ == "__main__":
    Check("C28", RULE).run(main)
