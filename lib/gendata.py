"""Scratch data directory: a copy of /repo/fisx_data plus a synthetic
EPDL97_CrossSections.dat (the real one is not distributed with the sources)."""
import os, shutil, random, math
REPO = os.environ.get("FISX_REPO", "/repo")
SUB = ["K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"]


def parse_spec(path):
    """Independent, line based reader of specfiles: list of (header, labels, rows)."""
    scans, cur = [], None
    with open(path, encoding="latin-1") as f:
        for line in f:
            line = line.rstrip("\r\n")
            if line.startswith("#S"):
                cur = [line, [], []]
                scans.append(cur)
            elif cur is None:
                continue
            elif line.startswith("#L"):
                cur[1] = [x.strip() for x in line[2:].strip().split("  ") if x.strip()]
            elif line.startswith("#") or not line.strip():
                continue
            else:
                cur[2].append([float(x) for x in line.split()])
    return scans


def binding_key(label):
    if label[:1] == "K":
        return "K"
    if len(label) > 3 and label[3] == "(":
        return label[:3]
    return label[:2]


def read_binding(path):
    h, labels, rows = parse_spec(path)[0]
    return [{binding_key(l): v for l, v in zip(labels[1:], r[1:])} for r in rows]


# first-row shell jump shares (roughly realistic)
SHARE = {"K": 1.0, "L1": 0.035, "L2": 0.035, "L3": 0.06, "M1": 0.009, "M2": 0.007, "M3": 0.011, "M4": 0.003, "M5": 0.004}
POWER = {"K": 2.9, "L1": 2.35, "L2": 2.9, "L3": 2.95, "M1": 2.2, "M2": 2.6, "M3": 2.65, "M4": 3.1, "M5": 3.15, "o": 2.5}
LABELS = ["PhotonEnergy[keV]", "Rayleigh(coherent)[barn/atom]", "Compton(incoherent)[barn/atom]", "CoherentPlusIncoherent[barn/atom]",
          "Photoelectric[barn/atom]", "PairProduction[barn/atom]", "TotalCrossSection[barn/atom]",
          "K[barn/atom]", "L1[barn/atom]", "L2[barn/atom]", "L3[barn/atom]", "M1[barn/atom]", "M2[barn/atom]", "M3[barn/atom]",
          "M4[barn/atom]", "M5[barn/atom]", "AllOther[barn/atom]"]


def write_epdl(path, bindings, seed, nscans=100, npoints=64, noise=0.05):
    r = random.Random("epdl%s" % seed)
    out = ["#F EPDL97_CrossSections.dat", "#U00 synthetic", ""]
    lo, hi = 1.0e-3, 1000.0
    for i in range(nscans):
        z = i + 1
        b = bindings[i]
        a = 2.0 * z + (1 if z > 1 else -1) + 0.006 * z * z
        base = [lo * (hi / lo) ** (k / (npoints - 1.0)) for k in range(npoints)]
        base = [float("%.6E" % x) for x in base]
        edges = sorted(set(float("%.6E" % b[s]) for s in b if b[s] > lo * 1.05 and s[0] in "KLMN"))
        grid = sorted([x for x in base if all(abs(x - e) > 1e-6 * e for e in edges)] + edges + edges)
        amp = {}
        ck = 12.0 * z ** 4.0 / a
        for s in SUB:
            amp[s] = ck * SHARE[s]
        rows = []
        prev = None
        noisy = {}
        for x in grid:
            second = prev == x
            prev = x
            if not second:
                noisy = {k: 1.0 + noise * (2 * r.random() - 1) for k in SUB + ["o", "c", "i"]}
            shells = []
            for s in SUB:
                e = float("%.6E" % b.get(s, 0.0))
                on = e > lo * 1.05 and (x > e or (x == e and second))
                v = amp[s] * x ** (-POWER[s]) * noisy[s] if on else 0.0
                if v > 1e6 * 0.5:
                    v = 5e5 / (1 + x / 0.01) * noisy[s]
                shells.append(v)
            other = 0.0
            if i > 17:
                other = min(ck * 0.002 * (i / 20.0) * x ** (-POWER["o"]), 1e5 / (1 + x)) * noisy["o"]
            coh = (0.3 + 0.02 * z) * z / 10.0 / (1 + (x / (2 + 0.3 * z)) ** 1.9) * noisy["c"] + 1e-6
            inc = 0.2 * (x / (x + 0.3 * z + 0.5)) / (1 + x / 500.0) * noisy["i"] + 1e-7
            photo = sum(shells) + other
            vals = [x, coh, inc, coh + inc, photo, 0.0, coh + inc + photo] + shells + [other]
            rows.append(" ".join("%.9E" % v for v in vals))
        out += ["#S %d Z%d" % (z, z), "#N %d" % len(LABELS), "#L " + "  ".join(LABELS)] + rows + [""]
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")


def make(dest, seed=1, **kw):
    """Create a data directory at dest and return dest."""
    shutil.copytree(os.path.join(REPO, "fisx_data"), dest)
    p = os.path.join(dest, "EPDL97_CrossSections.dat")
    write_epdl(p, read_binding(os.path.join(dest, "EADL97_BindingEnergies.dat")), seed, **kw)
    return dest


if __name__ == "__main__":
    import sys
    make(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 1)
