"""C01: whatever a file contains, reading it is memory safe and ends."""
import sys, os, subprocess, signal, glob, re, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import mutate, xrfgen
import c12_datafiles as files
import c28_specfile, c29_ini, c30_config
RULE = ("generated and shipped files of every format, mutated in structure, lines, tokens and bytes, read and then queried in a process with AddressSanitizer, "
        "UndefinedBehaviorSanitizer and container checks, part of them under valgrind memcheck; coverage-guided (libFuzzer) mutation of every format; "
        "a case is one distinct file content read")
FORMATS = ["spec", "ini", "xrf", "bind", "epdl", "const", "rad", "non", "mu"]
SHIPPED = {}


def small(scans, n):
    """The first rows of every scan, as text."""
    return "\n".join("#S %d %s\n#N %d\n#L %s\n%s\n" % (i + 1, t.replace("#S", "").strip(), len(l), "  ".join(l), "\n".join(" ".join("%.9g" % v for v in row) for row in rows[:n])) for i, (t, l, rows) in enumerate(scans))


def seed(r, fmt, G):
    """A well formed file of this format."""
    if fmt == "spec":
        return c28_specfile.make(r)[1]
    if fmt == "ini":
        return c29_ini.make(r)[2]
    if fmt == "xrf":
        return c30_config.ini(r, c30_config.setup(r, G))
    if fmt == "bind":
        return r.choice(SHIPPED["bind"])
    if fmt == "epdl":
        return SHIPPED["epdl"]
    main = r.choice("KLM")
    n = r.choice([3, 3, 9, 30, 100])
    if fmt == "const":
        scans = files.scans_constants(r, main, n)
    elif fmt in ("rad", "non"):
        scans = files.scans_rates(r, main, n, fmt == "rad")
    else:
        scans = files.scans_mu(r, None, [(t, l, rows[:r.choice([3, 10, 200])]) for t, l, rows in SHIPPED["xcom"][:r.choice([1, 2, 5])]], 99)
    return "#%s\n" % main + files.spec(r, scans)


def questions(r, fmt, p, text, dirname):
    """Read the file at p and ask for what is in it."""
    if fmt == "spec":
        n = min(text.count(b"#S"), 30)
        q = [["spec.new", "s", p], ["spec.n", "s"]]
        for i in list(range(-1, n + 2)) + [2 ** 31 - 1, -2 ** 31]:
            q += [["spec.labels", "s", i], ["spec.data", "s", i]]
        return q + [["spec.file", "s", p], ["spec.data", "s", 0]]
    if fmt == "ini":
        names = [m.group(1).decode("latin-1") for m in re.finditer(rb"\[([^\]\r\n]*)\]", text)][:25] + ["", "fit", "x.y"]
        q = [["ini.new", "i", p], ["ini.sections", "i"]]
        for n in names:
            q += [["ini.section", "i", n, r.randint(0, 1)], ["ini.sub", "i", n.split(".")[0], r.randint(0, 1)]]
        vals = [l.split(b"=", 1)[1].decode("latin-1") for l in text.split(b"\n") if b"=" in l][:25]
        for v in vals:
            q += [["ini.vd", v, -1.0, r.choice(",; ")], ["ini.vi", v, -1, ","], ["ini.vs", v, "x", ","], ["ini.d", v, -1.0], ["ini.i", v, -1]]
        return q + [["ini.read", "i", p], ["ini.sections", "i"]]
    if fmt == "xrf":
        q = [[r.choice(["X.new", "X.read"]), "x", p]]
        if q[0][0] == "X.read":
            q.insert(0, ["X.new", "x"])
        return q + [["X.config", "x"], ["X.print", "x"], ["X.geff", "x", 0], ["X.multi", "x", "E", ["Fe K", "Pb L"], r.randint(0, 1), 1, 1, 0.0, None], ["X.copy", "y", "x"], ["X.read", "y", p]]
    if fmt == "bind":
        return [["epdl.new", "e"], ["epdl.loadb", "e", p]] + [["epdl.getb", "e", z] for z in (-1, 0, 1, 26, 92, 100, 101)]
    if fmt == "epdl":
        q = [["epdl.new", "e", dirname]]
        for z in (0, 1, 2, 3, 4, 101):
            q += [["epdl.getb", "e", z], ["epdl.muall", "e", z]] + [["epdl.mu", "e", z, x] for x in (1e-3, .01, 8.3, 500., 2000.)] + [["epdl.pw", "e", z, 8.3], ["epdl.muv", "e", z, [1.0, 8.0]]]
        if r.random() < .3:
            q += [["E.new", "tmp", dirname], ["E.mu", "tmp", "H", 1.0], ["E.del", "tmp"]]
        return q + [["epdl.dir", "e", dirname]]
    m = re.match(rb"#([KLM])", text)
    main = m.group(1).decode() if m and r.random() < .9 else r.choice(["K", "L", "M", "N", "", "k"])
    q = [["E.%sFile" % fmt, "E", main, p] if fmt != "mu" else ["E.muFile", "E", p]]
    for el in ("H", "Li", "Fe", "Pb", r.choice(["U", "Es", "C", "Fm", "Mo"])):
        q += [["E.exc", "E", el, 30.0, 1.0], ["E.mu", "E", el, 8.0], ["E.families", "E", el, 50.0]]
        for s in {"K": ["K"], "L": ["L1", "L2", "L3"], "M": ["M1", "M4", "M5"]}.get(main, []):
            q += [["E.const", "E", el, s], ["E.rad", "E", el, s], ["E.non", "E", el, s], ["E.fromvac", "E", el, {s: 1.0}, 1, 1]]
    return q


def tiny(c):
    """A data directory with few elements, loaded quickly."""
    d = c.datadir(1 + c.seed % 3, nscans=4, npoints=8)
    return d


def answers(D, q):
    out = []
    for a, cmd in zip(D.raw(q), q):
        if str(a.get("harness", "")).startswith("no handle"):
            out.append(LibError("none", "not created"))
        else:
            out.append(D.decode(a, cmd))
    return out


def explore(c, w, D, formats, t0, budget, runs):
    r = c.rng
    big = c.datadir(1 + c.seed % 3)
    D.call("E.new", "E", big)
    need = {"xrf"} & set(formats)
    G = None
    if need:
        lab = Lab(c, "default", handle="L", driver=D) if "valgrind" not in str(D.prefix) else None
        G = xrfgen.Gen(lab, r) if lab else c.gen
    n = 0
    d = tiny(c)
    own = os.path.join(c.scratch(), "dir%d" % w)
    import shutil
    shutil.copytree(d, own)
    while n < runs and time.time() - t0 < budget:
        n += 1
        fmt = r.choice(formats)
        b = seed(r, fmt, G).encode("latin-1", "replace")
        m = r.random()
        tail = SHIPPED["tail"] if fmt == "epdl" and r.random() < .8 else b""
        if m < .9:
            b = mutate.mutate(r, b)
        elif m < .92:
            pass
        elif m < .95:
            b = b""
        elif m < .97:
            b = bytes(r.randrange(256) for _ in range(r.randint(1, 400)))
        if fmt == "epdl":
            p = os.path.join(own, "EPDL97_CrossSections.dat")
            with open(p, "wb") as f:
                f.write(b + tail)
            c.files["dir%d/EPDL97_CrossSections.dat" % w] = (b + tail).decode("latin-1")
        else:
            p = c.write("%sf%d.dat" % (c.worker, n % 4), b)
        if r.random() < .01:
            p = r.choice([os.path.join(c.scratch(), "no such file"), c.scratch(), "", "/dev/null", os.path.join(c.scratch(), "x" * 300)])
        q = questions(r, fmt, p, b, own)
        c.context = {"format": fmt, "file": b[:3000].decode("latin-1")}
        try:
            g = answers(D, q)
        except Crash as e:
            c.crash(e, D)
            D.call("E.new", "E", big)
            continue
        ok = not isinstance(g[1 if q[0] in (["X.new", "x"], ["epdl.new", "e"]) else 0], LibError)
        c.count(fmt + (":accepted" if ok else ":refused"))
        c.count("answers", sum(1 for x in g if not isinstance(x, LibError)))
        c.count("exceptions", sum(1 for x in g if isinstance(x, LibError)))
        c.case((fmt, b), fmt)
        c.sample({"format": fmt, "file": b[:300].decode("latin-1")})
        if len(D.log) > 4000:
            D.log = D.log[-2000:]


def worker(c, w):
    t0 = time.time()
    if w == 7:
        # memcheck sees uninitialised values
        D = c.driver("mem", timeout=300, prefix=["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--leak-check=no", "--undef-value-errors=yes"])
        small_memcheck(c, D, t0)
        return
    D = c.driver("asan", timeout=60)
    explore(c, w, D, FORMATS if w > 3 else [["const", "rad", "non", "mu"], ["xrf", "ini"], ["spec", "bind", "ini"], ["epdl", "spec"]][w], t0, c.size(22, 900), c.size(1500, 10 ** 6))


def small_memcheck(c, D, t0):
    """Formats that need no large data."""
    r = c.rng
    n = 0
    own = os.path.join(c.scratch(), "dir7")
    import shutil
    shutil.copytree(tiny(c), own)
    lab = type("L", (), {})()
    while n < c.size(400, 10 ** 6) and time.time() - t0 < c.size(22, 900):
        n += 1
        fmt = r.choice(["spec", "ini", "xrf", "spec", "ini", "xrf", "bind", "epdl"]) if n % 40 == 0 else r.choice(["spec", "ini", "xrf"])
        b = (r.choice(c.configs) if fmt == "xrf" else seed(r, fmt, None)).encode("latin-1", "replace")
        if r.random() < .9:
            b = mutate.mutate(r, b)
        if fmt == "epdl":
            p = os.path.join(own, "EPDL97_CrossSections.dat")
            with open(p, "wb") as f:
                f.write(b + SHIPPED["tail"])
            c.files["dir7/EPDL97_CrossSections.dat"] = (b + SHIPPED["tail"]).decode("latin-1")
        else:
            p = c.write("w7f%d.dat" % (n % 4), b)
        q = [x for x in questions(r, fmt, p, b, own) if x[0] not in ("X.multi", "E.new", "E.mu", "E.del")]
        c.context = {"format": fmt, "file": b[:3000].decode("latin-1"), "under": "valgrind"}
        g = answers(D, q)
        c.case((fmt, b), "memcheck_files")
        c.count("memcheck_answers", sum(1 for x in g if not isinstance(x, LibError)))


def fuzz(c, exe, fmt, corpus, seconds, work):
    """One libFuzzer process."""
    env = dict(os.environ, FISX_FUZZ=fmt, FISX_DATA=os.path.join(work, "data") if fmt == "epdl" else c.datadir(1 + c.seed % 3), UBSAN_OPTIONS="print_stacktrace=1")
    if fmt == "epdl":
        env["FISX_PATH"] = os.path.join(work, "data", "EPDL97_CrossSections.dat")
        env["FISX_TAIL"] = os.path.join(work, "tail")
        with open(env["FISX_TAIL"], "wb") as f:
            f.write(SHIPPED["tail"])
    return subprocess.Popen([exe, "-seed=%d" % (c.seed + 1), "-max_total_time=%d" % seconds, "-timeout=30", "-rss_limit_mb=3500", "-malloc_limit_mb=3000", "-max_len=20000", "-artifact_prefix=" + work + "/",
                             "-use_value_profile=0", "-print_final_stats=1", "-reload=0", "-close_fd_mask=0", corpus], env=env, stdout=subprocess.DEVNULL,
                            stderr=open(os.path.join(work, "log"), "wb"), cwd=work)


def fuzzing(c, exe):
    r = c.rng
    import shutil
    per = c.size(14, 300)
    todo = list(FORMATS)
    jobs = []
    while todo or jobs:
        while todo and len(jobs) < 9:
            fmt = todo.pop(0)
            work = os.path.join(c.scratch(), "fuzz-" + fmt)
            corpus = os.path.join(work, "corpus")
            os.makedirs(corpus)
            if fmt == "epdl":
                shutil.copytree(tiny(c), os.path.join(work, "data"))
            for k in range(4 if fmt in ("epdl", "bind") else 12):
                b = (r.choice(c.configs) if fmt == "xrf" else seed(r, fmt, None)).encode("latin-1", "replace")
                if fmt in ("const", "rad", "non"):
                    b = bytes(["KLM".index(chr(b[1]))]) + b
                with open(os.path.join(corpus, "s%d" % k), "wb") as f:
                    f.write(b)
            jobs.append((fmt, work, fuzz(c, exe, fmt, corpus, per, work)))
        fmt, work, p = jobs.pop(0)
        try:
            p.wait(per + 200)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            c.count("fuzz_stuck")
        log = open(os.path.join(work, "log"), "rb").read().decode(errors="replace")
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", log)
        n = int(m.group(1)) if m else 0
        cov = re.findall(r"cov: (\d+)", log)
        c.count("fuzz_runs_" + fmt, n)
        c.count("fuzz_cov_" + fmt, int(cov[-1]) if cov else 0)
        c.case(("fuzz", fmt, n) if n else None, "fuzz_targets")
        found = [f for f in glob.glob(os.path.join(work, "*-*")) if os.path.basename(f).split("-")[0] in ("crash", "timeout")]
        if found:
            with open(found[0], "rb") as f:
                b = f.read()
            if os.path.basename(found[0]).startswith("timeout"):
                # alone and with more time
                env = dict(os.environ, FISX_FUZZ=fmt, FISX_DATA=c.datadir(1 + c.seed % 3) if fmt != "epdl" else os.path.join(work, "data"), **({"FISX_PATH": os.path.join(work, "data", "EPDL97_CrossSections.dat"), "FISX_TAIL": os.path.join(work, "tail")} if fmt == "epdl" else {}))
                q = subprocess.run([exe, "-timeout=60", found[0]], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if q.returncode == 0:
                    c.count("unconfirmed_timeouts")
                    continue
            c.context = {"format": fmt, "file": b[:4000].decode("latin-1")}
            k = max(log.find("==ERROR"), log.find("runtime error"), log.find("Assertion '"))
            rep = log[max(0, k - 200):k + 5000] if k >= 0 else log[-3000:]
            c.fail("fuzz:%s:%s" % (fmt, runner.crash_site(rep)), "reading this %s file dies: %s" % (fmt, rep[:300]), {"report": rep, "file_hex": b.hex()[:60000]})
        elif p.returncode not in (0, -9) and not glob.glob(os.path.join(work, "oom-*")):
            raise HarnessError("fuzzer of %s ended with %s: %s" % (fmt, p.returncode, log[-1500:]))


def main(c):
    build.build("asan")
    build.build("mem")
    exe = build.build("fuzz", "fuzz")
    big = c.datadir(1 + c.seed % 3)
    d = tiny(c)
    b = os.path.join(big, "EADL97_BindingEnergies.dat")
    SHIPPED["bind"] = [small(gendata.parse_spec(os.path.join(big, n)), k) for n in ("EADL97_BindingEnergies.dat", "BindingEnergies.dat") for k in (3, 100)]
    SHIPPED["xcom"] = gendata.parse_spec(os.path.join(big, "XCOM_CrossSections.dat"))
    scans = gendata.parse_spec(os.path.join(d, "EPDL97_CrossSections.dat"))
    SHIPPED["epdl"] = small(scans[:4], 100)
    SHIPPED["tail"] = ("\n" + small([(t, l, rows) for t, l, rows in scans[3:] * 96], 2)).encode()
    lab = Lab(c, "default", handle="L", driver=c.driver("plain"))
    G = xrfgen.Gen(lab, c.rng)
    c.configs = [seed(c.rng, "xrf", G) for _ in range(30)]
    c.drivers.pop().close()
    c.fork(8, worker)
    fuzzing(c, exe)


if __name__ == "__main__":
    Check("C01", RULE).run(main)
