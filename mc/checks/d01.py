"""D01: a binary difference describes exactly how to turn one byte string into the other."""

import itertools

from mc import core
from mc.core import check, check_eq, expect_raises, pattern

ID = "D01"
LEVEL = "exploration"
RULE = "All ordered pairs of byte strings over a 2 (3) letter alphabet up to length 7 (4), all 65536 pairs of single bytes, long patterned strings; the difference is applied as a patch by an independent patcher."
ASSUMPTIONS = []


def spaces(tier):
    n2, n3 = (7, 4) if tier == "quick" else (9, 5)

    def binary():
        for la in range(n2 + 1):
            for a in range(1 << la):
                yield [la, a, n2]

    def ternary():
        for la in range(n3 + 1):
            for a in itertools.product((0, 1, 0xFF), repeat=la):
                yield [list(a), n3]

    def bytepairs():
        for a in range(256):
            yield [a]

    def long():
        for n in (255, 256, 257, 1000):
            for d in (-300, -1, 0, 1, 300):
                for pos in ([], [0], [n - 1], [0, 1], [n - 2, n - 1], [0, n - 1], [100, 101, 102, 200], list(range(n))):
                    yield [n, d, pos]

    def huge():
        for n in (4095, 4096, 4097, 65535, 65536, 65537):
            for d in (-4096, -1, 0, 1, 256, 65536):
                for pos in ([], [0], [n - 1], [255, 256], [4094], list(range(0, n, 2)), list(range(100, 100 + 300)), list(range(0, min(n, 4090), 3))):
                    yield [n, d, pos if len(pos) < 300 else ["range", pos[0], pos[-1] + 1, pos[1] - pos[0]]]

    def longrun():
        """One run of every order of magnitude, with equal bytes before and behind it or not; the same appended or deleted."""
        for run in (1, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 8193, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131073, 200000):
            for before in (0, 1, 300):
                for behind in (0, 1, 5):
                    yield [run, before, behind]

    def runs():
        """Runs of every length at every distance."""
        for n in (600,):
            for run in (1, 2, 15, 16, 17, 127, 128, 254, 255, 256, 257):
                for gap in (1, 2, 3, 16, 255, 256):
                    for start in (0, 1, 5):
                        yield [n, run, gap, start]

    def ends():
        for la in range(0, 40):
            for lb in range(0, 40):
                yield [la, lb]

    def bad():
        for x in range(5):
            yield [x]

    return {"binary": binary, "ternary": ternary, "bytepairs": bytepairs, "long": long, "huge": huge, "longrun": longrun, "runs": runs, "ends": ends, "bad": bad}


def run_case(kind, p):
    return globals()["do_" + kind](*p)


def verify(a, b):
    from objutils.utils.diff import diff_bin

    ca, cb = bytes(a), bytes(b)
    res = diff_bin(a, b)
    check_eq((bytes(a), bytes(b)), (ca, cb), "arguments")
    out = bytearray(ca)
    last = -1
    covered = set()
    for i, d in enumerate(res):
        check(d.type in ("M", "A", "D"), "type %r", d.type)
        check(d.offset > last, "offsets are ascending: %r", res)
        if d.type == "M":
            check(len(d.a) == len(d.b) > 0, "modification of different lengths %r", d)
            check_eq(ca[d.offset : d.offset + len(d.a)], bytes(d.a), "original bytes")
            check(all(x != y for x, y in zip(d.a, d.b)), "unchanged byte in modification %r", d)
            out[d.offset : d.offset + len(d.a)] = d.b
            last = d.offset + len(d.a) - 1
            covered |= set(range(d.offset, last + 1))
            # maximal: the next modification is not adjacent
            check(not (i + 1 < len(res) and res[i + 1].type == "M" and res[i + 1].offset == last + 1), "adjacent modifications %r", res)
        else:
            check(i == len(res) - 1, "append/delete is last: %r", res)
            if d.type == "A":
                check_eq((d.offset, d.a), (len(ca), None), "append")
                check(len(d.b) > 0, "empty append")
                out += d.b
            else:
                check_eq((d.offset, d.b), (len(cb), None), "delete")
                check_eq(bytes(d.a), ca[d.offset :], "deleted bytes")
                check(len(d.a) > 0, "empty delete")
                del out[d.offset :]
    check_eq(bytes(out), cb, f"{ca.hex()} patched with the difference to {cb.hex()}")
    check((not res) == (ca == cb), "empty difference means equality")
    return tuple((d.type, d.offset, len(d.a or d.b)) for d in res)


def do_binary(la, av, n):
    a = bytes(av >> i & 1 for i in range(la))
    out = []
    for lb in range(n + 1):
        for bv in range(1 << lb):
            b = bytes(bv >> i & 1 for i in range(lb))
            out.append(verify(a if bv & 1 else bytearray(a), b if bv & 2 else bytearray(b)))
    return hash(tuple(out))


def do_ternary(a, n):
    out = []
    for lb in range(n + 1):
        for b in itertools.product((0, 1, 0xFF), repeat=lb):
            out.append(verify(bytes(a), bytes(b)))
    return hash(tuple(out))


def do_bytepairs(x):
    for y in range(256):
        verify(bytes([x]), bytes([y]))
        verify(bytes([x, y, x]), bytes([y, y, x, x]))
    return x


def do_huge(n, d, pos):
    return do_long(n, d, range(*pos[1:]) if pos and pos[0] == "range" else [i for i in pos if i < n])


def do_runs(n, run, gap, start):
    a = pattern(n)
    b = bytearray(a)
    for i in range(start, n):
        if (i - start) % (run + gap) < run:
            b[i] ^= 0x5A
    return verify(a, b), verify(bytes(b) + b"tail", bytearray(a)), verify(a[:-3], b)


def do_longrun(run, before, behind):
    head, tail = pattern(before, 1), pattern(behind, 2)
    a = head + pattern(run, 3) + tail
    b = head + bytes(x ^ 0x81 for x in pattern(run, 3)) + tail
    return verify(a, b), verify(bytearray(b), a + b"x"), verify(a[:before], a), verify(a, a[:before])


def do_ends(la, lb):
    """Common prefix, everything different, or different in the last common byte."""
    m = min(la, lb)
    out = []
    for diff in ((), range(m), [m - 1] if m else (), [0] if m else (), range(0, m, 2)):
        a = bytearray(pattern(la))
        b = bytearray(pattern(lb))
        for i in diff:
            b[i] ^= 0xFF
        out.append(verify(a, bytes(b)))
    return hash(tuple(out))


def do_long(n, d, pos):
    a = pattern(n)
    b = bytearray(a)
    for i in pos:
        b[i] ^= 0x80
    if d > 0:
        b += pattern(d, 7)
    elif d < 0:
        del b[max(n + d, 0) :]
    verify(bytes(b), a)
    return verify(a, b)


def do_bad(x):
    from objutils.utils.diff import diff_bin

    v = ["abc", [1, 2], None, 5, memoryview(b"abc")][x]
    expect_raises((TypeError,), diff_bin, v, b"abc")
    expect_raises((TypeError,), diff_bin, b"abc", v)
    return x
