"""Mutations of text files: structure, lines, tokens and bytes."""
import re
NASTY = [b"-1", b"0", b"999999999", b"99999999999999999999", b"-2147483648", b"2147483648", b"1e999", b"-1e999", b"1e-999", b"nan", b"inf", b"-inf", b"1e", b"e5", b".", b"-",
         b"+", b"--1", b"0x10", b"1.2.3", b"1,5", b"", b" ", b"\t", b"#", b"#S", b"#L", b"#N", b"#F", b"=", b"==", b"[", b"]", b"[]", b"[.", b".", b"..", b"\"", b"'", b"\\", b"%s%n", b"\x00",
         b"\xff", b"\xc3\xa9", b"K", b"L3M5", b"KL", b"KL3L3", b"K-L1", b"K-L1M", b"TOTAL", b"Z", b"omegaK", b"f12", b"omega", b"L", b"M9", b"KK", b"K(1s)", b"L1(2s1/2)", b"L(", b"()",
         b"1e308", b"-0.0", b"None", b"MULTILAYER", b"-", b";", b"; ", b"A" * 300, b"1" * 300, b"9" * 40, b"\r", b"\n", b"\n\n", b"  ", b"   ", b"," * 20, b"1.0e+0000000000000000000001"]
HEADS = [b"#S", b"#S 1", b"#S 99 x", b"#L", b"#L ", b"#L  a  b", b"#N", b"#N 0", b"#N -1", b"#N 99999999", b"#F", b"#U00", b"", b" ", b"#", b"# ", b"1 2 3", b"[fit]", b"[", b"]", b"[]", b"[.a]", b"[a.]",
         b"[Materials.]", b"[Materials.Fe]", b"[attenuators]", b"[multilayer]", b"[UserAttenuators.x]", b"=", b"= 1", b"a =", b"a", b" a = 1", b"energy = 1", b"Matrix = 1", b"CompoundList =",
         b"Layer0 = 1, Fe, 1, 1", b"Detector = 1, Si", b"BeamFilter0 = 1", b"use = 1", b"transmission = 1", b"area = x", b"\"", b"a = \"", b"\x00", b"@A 1 2 3", b"energyflag = 9", b"#L Z  TOTAL"]


def nasty(r):
    if r.random() < .07:
        # long items, around the sizes of common buffers
        n = r.choice([15, 16, 31, 32, 63, 64, 79, 80, 99, 100, 127, 128, 199, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8192, 65535, 65536]) + r.choice([-1, 0, 0, 1])
        return r.choice([b"A", b"7", b"0", b".", b"-", b" ", b",", b"7 ", b"K", b"e", b"L1 ", b"x, ", b"a = ", b"\t", b"\"", b"#", b"[", b"(", b"1.5  "]) * n
    return r.choice(NASTY)


def byte(r):
    return bytes([r.choice([0, 9, 10, 13, 32, 35, 61, 91, 93, 34, 255, 45, 46, r.randrange(256)])])


def one(r, b):
    m = r.randrange(17)
    n = len(b)
    if m == 0 and n:
        i = r.randrange(n)
        return b[:i] + byte(r) + b[i + 1:]
    if m == 1:
        i = r.randint(0, n)
        return b[:i] + (byte(r) if r.random() < .5 else nasty(r)) + b[i:]
    if m == 2 and n:
        i = r.randrange(n)
        return b[:i] + b[min(n, i + r.choice([1, 1, 2, 10, r.randint(1, n)])):]
    if m == 3 and n:
        i = r.randrange(n)
        return b[:i] if r.random() < .7 else b[i:]
    if m == 4 and n:
        i = r.randrange(n)
        k = r.choice([1, 5, 50])
        return b[:i] + b[i:i + k] * r.choice([2, 3, 50]) + b[i + k:]
    if m in (5, 6, 7, 8, 9):
        eol = b"\r\n" if b"\r\n" in b else b"\n"
        ls = b.split(eol)
        i = r.randrange(len(ls))
        if m == 5:
            del ls[i]
        elif m == 6:
            ls[i:i] = [r.choice(HEADS)] * r.choice([1, 1, 2])
        elif m == 7:
            ls[i] = r.choice(HEADS) if r.random() < .5 else ls[i] + r.choice([b" ", b" 1", b"  x", b"#", b";", b"\x00"])
        elif m == 8:
            j = r.randrange(len(ls))
            ls[i], ls[j] = ls[j], ls[i]
        else:
            ls[i:i] = [ls[r.randrange(len(ls))]] * r.choice([1, 2, 40])
        return eol.join(ls)
    if m in (10, 11, 12, 13):
        toks = list(re.finditer(rb"[^\s,=\[\]]+", b[:200000]))
        if not toks:
            return b
        t = r.choice(toks)
        if m == 13:
            return b[:t.start()] + b[t.end():]
        return b[:t.start()] + nasty(r) + b[t.end():]
    if m == 14:
        return r.choice([b.rstrip(), b + b"\n", b.replace(b"\n", b"\r\n"), b.replace(b"\n", b"\r"), b.replace(b"\r", b""), b.replace(b"\n", b""), b"\xef\xbb\xbf" + b, b.upper(), b.lower(), b.replace(b" ", b""),
                         b.replace(b"  ", b" "), b.replace(b" ", b"\t"), b + b, b.replace(b"=", b""), b.replace(b",", b" "), b.replace(b"#L", b"#C"), b.replace(b"#S", b"#s"), b.replace(b"#N", b"#S")])
    if m == 15 and n:
        # one line without the numbers after some column
        ls = b.split(b"\n")
        i = r.randrange(len(ls))
        w = ls[i].split()
        ls[i] = b" ".join(w[:r.randint(0, len(w))] + ([nasty(r)] if r.random() < .3 else []))
        return b"\n".join(ls)
    return b


def mutate(r, b, most=6):
    for _ in range(r.choice([1, 1, 1, 2, 3, r.randint(1, most)])):
        b = one(r, b)
    return b[:100000]
