"""C29: the ini reader returns exactly the sections and values of the file."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
RULE = ("ini files written by a generator (nested sections, comments, quotes, continued values, line endings, letter case) and read back: sections, subsections, "
        "contents and conversions compared exactly, malformed files refused; a case is one section, subsection list or conversion")
NAMES = ["fit", "Fit", "attenuators", "Materials", "materials", "concentrations", "multilayer", "a", "AB", "result", "peaks", "UserAttenuators", "x y", "sec_1", "Zn-K"]
CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-"


def word(r, n=8):
    return r.choice(CHARS[:52]) + "".join(r.choice(CHARS) for _ in range(r.randint(0, n)))


def secname(r):
    parts = [r.choice(NAMES) if r.random() < .6 else word(r) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
    return ".".join(parts)


def num(r, integer=False):
    if integer or r.random() < .3:
        return str(r.choice([0, 1, -1, r.randint(-1000, 1000), r.randint(-2 ** 31, 2 ** 31 - 1)]))
    x = r.choice([r.uniform(-10, 10), r.gauss(0, 1) * 10 ** r.uniform(-200, 200), 10 ** r.uniform(-5, 5), 0.0])
    return r.choice(["%.3f", "%r", "%.9E", "%.17g", "%g", "%e"]) % (x if abs(x) < 1e15 else 1.25)


def value(r):
    """A value as written on one line (no comment characters outside quotes)."""
    m = r.random()
    if m < .4:
        return r.choice([", ", ",", " , ", ",  "]).join(num(r) for _ in range(r.randint(1, 8)))
    if m < .5:
        return "1, %s, %s, %s, 1.0" % (r.choice(["-", "Gold", "Stainless steel", "SiO2"]), num(r), num(r))
    if m < .6:
        return r.choice(['"quoted; text # with = signs [x]"', '"a", "b;c"', '"[section]"', '""', 'text "x # y" more'])
    if m < .7:
        return r.choice(["a=b", "x = y = z", "== 2", "key = [1, 2]", "C:\\dir\\file", "http://host/p?q=1", "(1 + 2) * 3", "%(x)s", "tab\there", "'single'", "ends]", "[x]"])
    if m < .75:
        return ""
    if m < .76:
        return ", ".join(num(r) for _ in range(r.choice([100, 700])))
    return " ".join(word(r) for _ in range(r.randint(1, 5)))


def make(r):
    eol = r.choice(["\n", "\n", "\r\n"])
    lines, secs, cont = [], [], {}
    low = set()
    junk = lambda: r.choice(["", "", "   ", "\t", "# comment", "; comment [x]", "  # indented = comment", "#key = value", ";"])
    for _ in range(r.choice([0, 1, 1, 2, 4, r.randint(1, 15)])):
        name = secname(r)
        if r.random() < .25 and secs:
            name = r.choice(secs) + "." + word(r)
        again = bool(secs) and r.random() < .08
        if again:
            # more of a section that was there before
            name = r.choice(secs)
        elif name in secs or (name.lower() in low and r.random() < .6):
            continue
        low.add(name.lower())
        for _ in range(r.choice([0, 0, 1, 2])):
            lines.append(junk())
        secs.append(name)
        cont.setdefault(name, {})
        lines.append(r.choice(["", "", "", "  "]) + "[" + name + "]" + r.choice(["", "", "", "  ", " # comment", " ; comment"]))
        if r.random() < .06:
            # belongs to no key
            lines.append(r.choice(["", "  "]) + r.choice(["text", "1, 2, 3", "some words"]))
        for _ in range(r.choice([0, 1, 2, 3, 6, 12]) if r.random() < .99 else 300):
            k = word(r) if r.random() < .7 else r.choice(["energy", "Density", "CompoundList", "BeamFilter0", "Matrix", "x.y", "a:b", "k[0]"])
            if k in cont[name] or k.startswith("["):
                continue
            v = value(r)
            lead = r.choice(["", "", "  ", "\t"])
            lines.append(lead + k + r.choice([" = ", "=", " =", "= ", "  =  ", "\t=\t"]) + v + r.choice(["", "", "", "  ", "\t", " # comment", "; comment", " ;x=1"]))
            for _ in range(r.choice([0, 0, 0, 0, 1, 2])):
                if '"' in v:
                    break
                more = ",".join(num(r) for _ in range(r.randint(1, 4)))
                if not v.strip():
                    v = more
                else:
                    v = v + "," + more
                    # the separator stands at the end of the line or at the start of the next one
                    if r.random() < .5:
                        more = ", " + more
                    else:
                        s = lines[-1]
                        lines[-1] = strip_comment(s).rstrip() + r.choice([",", ", "])
                lines.append(r.choice(["", "  ", "    ", "\t"]) + more + r.choice(["", "", " ", " # c"]))
            cont[name][k] = v
            if r.random() < .12:
                lines.append(junk())
    text = eol.join(lines) + (eol if r.random() < .8 else "")
    return secs, cont, text


def strip_comment(s):
    for ch in "#;":
        s = s.split(ch)[0]
    return s


def squeeze(d):
    """Spaces are not part of what is compared (continued lines lose theirs)."""
    return {k: "".join(v.split()) for k, v in d.items()}


def conversions(c, D, r):
    sep = r.choice([",", ",", ",", ".", ";", " "])
    pad = (lambda s: s) if sep == " " else (lambda s: r.choice(["", " ", "  ", "\t"]) + s + r.choice(["", " ", "  "]))
    n = r.choice([0, 1, 1, 2, 5, r.randint(0, 40)])
    kind = r.choice(["ini.vd", "ini.vi", "ini.vs"])
    items, want = [], []
    default = {"ini.vd": -666.0, "ini.vi": -77, "ini.vs": "none"}[kind]
    for _ in range(n):
        bad = r.random() < .12
        if kind == "ini.vs":
            s = "" if bad else " ".join(word(r) for _ in range(1 if sep == " " else r.choice([1, 1, 2, 3])))
            want.append(default if bad else s)
        elif bad:
            s = r.choice(["", "abc", "-", "+", ".", "x1", "_", "nan", "e5", "--2", "K"] + (["99999999999", "-3000000000"] if kind == "ini.vi" else ["1e999"]))
            if sep == "." and "." in s:
                s = "-"
            want.append(default)
        else:
            s = num(r, kind == "ini.vi" or sep == ".")
            want.append(int(s) if kind == "ini.vi" else float(s))
        items.append(s)
    text = sep.join(pad(s) for s in items)
    if sep == " ":
        text = " ".join(items)
    if items and (items[-1] == "" and text.endswith(sep)):
        want = want[:-1]
    if n == 1 and text == "":
        want = []
    cmd = [kind, text, default, sep]
    c.same(D.attempt(*cmd), want, kind, "%s " % _j(cmd), 0.0)
    c.case((kind, text), "conversions")
    s = num(r, r.random() < .5)
    cmd = ["ini.d", pad(s) if r.random() < .7 else " " + s, -5.0]
    c.same(D.attempt(*cmd), float(s), "single", "%s " % _j(cmd), 0.0)
    cmd = ["ini.d", r.choice(["", "  ", "abc", "-", "x"]), -5.0]
    c.same(D.attempt(*cmd), -5.0, "single:default", "%s " % _j(cmd), 0.0)
    s = num(r, True)
    cmd = ["ini.i", " " + s, -5]
    c.same(D.attempt(*cmd), int(s), "single", "%s " % _j(cmd), 0.0)
    c.count("single_values", 3)


def main(c):
    c.fork(8, work)


def work(c, w):
    r = c.rng
    D = c.driver()
    state = {}
    for run in range(c.size(400, 4000)):
        secs, cont, text = make(r)
        p = c.write("w%d-%d.ini" % (w, run % 6), text)
        h = "h%d" % r.randrange(3)
        c.context = {"file": p, "text": text[:600]}
        if h in state and r.random() < .6:
            if r.random() < .2:
                g = D.attempt("ini.read", h, os.path.join(c.scratch(), "missing.ini"))
                c.expect(isinstance(g, LibError), "missing", "a file that does not exist is read")
                c.same(D.call("ini.sections", h), state[h], "missing:state", "sections after a failed reading ")
            cmd = ["ini.read", h, p]
        else:
            cmd = ["ini.new", h, p]
        g = D.attempt(*cmd)
        c.expect(not isinstance(g, LibError), "refused", "%s: %s" % (_j(cmd), g))
        state[h] = secs
        if h + "-" in state:
            del state[h + "-"]
        c.same(D.call("ini.sections", h), secs, "sections", "sections ")
        qs = []
        for s in secs:
            qs.append(("ini.section", s, 1))
            qs.append(("ini.section", s, 0))
            for v in (s.upper(), s.lower(), s.swapcase()):
                qs.append(("ini.section", v, 0))
                qs.append(("ini.section", v, 1))
        qs += [("ini.section", s, f) for s in ("nosuch", "fit", "FIT", secname(r)) for f in (0, 1)]
        parents = set(["", "fit", "Materials", "MATERIALS", "x", "nosuch"]) | {s.rsplit(".", k)[0] for s in secs for k in (1, 2)} | {s.upper().split(".")[0] for s in secs}
        qs += [("ini.sub", p, f) for p in sorted(parents) for f in (0, 1)]
        r.shuffle(qs)
        for q, g in zip(qs, D.batch([[q[0], h, q[1], q[2]] for q in qs])):
            if q[0] == "ini.sub":
                if q[1] == "":
                    want = secs
                elif q[2]:
                    want = [s for s in secs if s.startswith(q[1] + ".")]
                else:
                    want = [s for s in secs if s.lower().startswith(q[1].lower() + ".")]
                c.same(g, want, "subsections", "%s " % _j(q))
                c.case((w, run) + q, "subsections")
                continue
            name, cs = q[1], q[2]
            if name in cont:
                same = [name]
                if not cont[name] and not cs:
                    # an empty section: another one with the same letters may answer
                    same = [s for s in secs if s.lower() == name.lower()]
            elif cs:
                same = []
            else:
                same = [s for s in secs if s.lower() == name.lower()]
            wants = [cont[s] for s in same] or [{}]
            if isinstance(g, LibError) or not isinstance(g, dict):
                c.fail("section:raised", "%s gives %s" % (_j(q), g))
                continue
            if not any(squeeze(g) == squeeze(x) for x in wants):
                c.fail("section", "%s gives %s, expected %s" % (_j(q), _j(g), _j(wants[0])))
            # single line values keep their inner spaces
            for k, v in g.items():
                if len(wants) == 1 and " " in wants[0].get(k, "").strip() and "," not in wants[0][k]:
                    c.expect(v.strip() == wants[0][k].strip(), "value", "%s, key %s: %r, expected %r" % (_j(q), k, v, wants[0][k]))
            c.case((w, run) + q, "sections")
            c.count("values", len(g))
        for _ in range(6):
            conversions(c, D, r)
        if r.random() < .5:
            bad = r.choice(["[a", "[]", "[a]]", "[[a]]", "[a][b]", 'k = "unmatched', "[ab\n[c]", '"'])
            t = "[fit]\nx = 1\n" + bad + "\n[z]\ny = 2\n"
            q = c.write("w%d-bad.ini" % w, t)
            g = D.attempt("ini.new", "bad", q)
            c.expect(isinstance(g, LibError), "malformed", "a file with the line %r is accepted" % bad)
            c.case(("malformed", bad), "malformed")
        c.sample({"text": text[:300]})


if __name__ == "__main__":
    Check("C29", RULE).run(main)
