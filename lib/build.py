"""Builds the instrumented drivers from the current /repo working tree."""
import hashlib, os, subprocess, sys, glob, shutil, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FISX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SAN = {
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fsanitize=float-cast-overflow", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "msan": ["-O1", "-g1", "-fno-omit-frame-pointer"],
    "plain": ["-O2"],
    "zero": ["-O1", "-ftrivial-auto-var-init=zero"],
    "pattern": ["-O1", "-ftrivial-auto-var-init=pattern"],
    "mem": ["-O1", "-g1", "-fno-inline-functions"],
    "fuzz": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fsanitize=float-cast-overflow", "-fno-sanitize-recover=all",
             "-D_GLIBCXX_ASSERTIONS"],
}


class BuildError(Exception):
    pass


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _compile(job):
    cmd, out = job
    if os.path.exists(out):
        return
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.tmp.o" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-4000:])
    os.replace(tmp, out)


def build(kind="asan", target="driver"):
    """Return the path of an executable of the given sanitizer kind."""
    flags = SAN[kind]
    cxx = "clang++" if kind == "fuzz" else "g++"
    if kind == "fuzz":
        flags = flags + ["-fsanitize=fuzzer" if target == "fuzz" else "-fsanitize=fuzzer-no-link"]
    base = [cxx, "-std=c++17", "-w", "-pthread", "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "harness")]
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    heads = sorted(glob.glob(os.path.join(REPO, "src", "*.h")))
    hh = _hash(*[os.path.basename(h).encode() + _read(h) for h in heads])
    jobs, objs = [], []
    odir = os.path.join(BUILD, "obj")
    if target == "driver":
        vsrc = [(os.path.join(VERIF, "harness", "driver.cpp"), ["-DPART=%d" % i]) for i in (1, 2, 3, 4)]
    else:
        vsrc = [(os.path.join(VERIF, "harness", target + ".cpp"), [])]
    vflags = {"asan": ["-O0", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address", "-fno-omit-frame-pointer", "-g1"], "plain": ["-O0"], "mem": ["-O0"], "zero": ["-O0"], "pattern": ["-O0"], "tsan": ["-O0", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"]}.get(kind, flags)
    vh = _hash(_read(os.path.join(VERIF, "harness", "json.h")))
    for s, ex in vsrc:
        fl = vflags + ex
        o = os.path.join(odir, "v-%s.o" % _hash(hh, vh, _read(s), " ".join(fl)))
        jobs.append((base + fl + ["-c", s], o))
        objs.append(o)
    for s in srcs:
        o = os.path.join(odir, "r-%s.o" % _hash(hh, os.path.basename(s), _read(s), " ".join(flags)))
        jobs.append((base + flags + ["-c", s], o))
        objs.append(o)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(_compile, jobs))
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (target, kind, _hash(*objs)))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        link = [f for f in flags if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")]
        r = subprocess.run([cxx, "-pthread", "-w"] + link + objs + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("link:\n" + r.stdout.decode(errors="replace")[-4000:])
        os.replace(tmp, exe)
    return exe


def build_python():
    """Build the Python extension from a scratch copy of /repo; return the lib dir."""
    items = []
    for d in ("src", "python", "fisx_data"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs[:] = [x for x in dirs if x not in ("__pycache__", "tests")]
            for f in sorted(files):
                if f in ("_fisx.cpp", "_fisx.pyx"):
                    continue
                p = os.path.join(root, f)
                items.append(os.path.relpath(p, REPO).encode() + b":" + _read(p))
    for f in ("setup.py", "version.py", "pyproject.toml"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            items.append(_read(p))
    key = _hash(*items)
    dest = os.path.join(BUILD, "pylib-" + key)
    if os.path.exists(os.path.join(dest, "fisx")):
        return dest
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="pyb-", dir=BUILD)
    try:
        src = os.path.join(tmp, "repo")
        shutil.copytree(REPO, src, ignore=shutil.ignore_patterns(".git", "_build", "_fisx.cpp", "_fisx.pyx", "__pycache__"))
        env = dict(os.environ)
        for k in ("LC_CTYPE", "LC_MESSAGES", "FISX_DATA_DIR", "FISX_DOC_DIR", "WITH_CYTHON", "PYTHONPATH"):
            env.pop(k, None)
        env.update(CC="gcc", CXX="g++", CFLAGS="-O0", CXXFLAGS="-O0", PIP_NO_INDEX="1", PYTHONDONTWRITEBYTECODE="1", HOME=tmp,
                   LANG="C.UTF-8", LC_ALL="C.UTF-8")
        r = subprocess.run(["/opt/fisx/venv/bin/python", "setup.py", "build", "--build-base", "_build", "--build-lib", os.path.join(tmp, "lib"),
                            "--build-temp", os.path.join(tmp, "t"), "-j", "8"], cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            r = subprocess.run(["/opt/fisx/venv/bin/python", "setup.py", "build", "--build-base", "_build", "--build-lib", os.path.join(tmp, "lib"),
                                "--build-temp", os.path.join(tmp, "t")], cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("python build:\n" + r.stdout.decode(errors="replace")[-4000:])
        if not os.path.exists(dest):
            os.replace(os.path.join(tmp, "lib"), dest)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dest


if __name__ == "__main__":
    for a in sys.argv[1:] or ["asan"]:
        print(build_python() if a == "python" else build(a))
