"""C09: plain binary images."""

import itertools

from mc import images
from mc.core import Sink, check, check_eq, expect_raises, pattern
from mc.refmem import snap

ID = "C09"
LEVEL = "exploration"
RULE = (
    "All section layouts over a small window plus boundary layouts, all 256 filler bytes in both spellings, all load "
    "addresses of a boundary set; compared with a flat byte string built from the definition."
)
ASSUMPTIONS = ["the first section's address is not part of a binary image and has to be given when loading"]


def spaces(tier):
    cells = 10 if tier == "quick" else 13

    def layouts():
        for base in (0, 0x1000, 0xFFFFFFFA):
            for mask in range(1, 1 << cells):
                for join in (True, False):
                    yield [base, mask, cells, join]

    def fillers():
        for f in range(256):
            for form in ("int", "bytes", "kw"):
                yield [f, form]
        yield [None, "default"]

    def bad():
        for f in (-1, 256, 1000, b"", b"ab", "a", None, 1.0, [0]):
            yield [repr(f)]

    def gaps():
        for g in (1, 2, 255, 256, 257, 4095, 4096, 65535, 65536, 100000):
            for n1 in (1, 16, 255, 256):
                for n2 in (1, 16, 257):
                    for base in (0, 5, 0xFFFF0000):
                        yield [base, n1, g, n2]

    def many():
        for k in (17, 255, 256, 257, 1000, 1001):
            for n in (1, 3, 16):
                for gap in (1, 15, 255, 300):
                    yield [k, n, gap, 0x1000]
                    yield [k, n, gap, 0xFFFFFFF0]

    def wide_gaps():
        for g in ((1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3 << 20, 1 << 24):
            for base in (0, 0xFFFF0000):
                yield [base, 5, g, 7]

    def empties():
        """Sections without content, anywhere: they hold no address."""
        for base in (0, 0x1000):
            for mask in range(1, 1 << 5):
                for k in (1, 2):
                    for at in itertools.combinations_with_replacement(range(-2, 8), k):
                        if base or min(at) >= 0:
                            for order in (0, 1):
                                for join in (True, False):
                                    yield [base, mask, list(at), order, join]

    def loads():
        for a in (None, 0, 1, 0xFFFF, 0x10000, 0x12345678, 0xFFFFFFFF, 1 << 40):
            for n in (1, 2, 16, 255, 256, 1000, 4096, 65535, 65536, 65537, 1 << 20):
                yield [a, n]
        for b in range(256):
            yield [b, -b - 1]

    return {"empties": empties, "layouts": layouts, "fillers": fillers, "bad": bad, "gaps": gaps, "many": many, "wide_gaps": wide_gaps, "loads": loads}


def flat(secs, fill=0xFF):
    lo, hi = secs[0][0], secs[-1][0] + len(secs[-1][1])
    out = bytearray([fill]) * (hi - lo)
    for a, d in secs:
        out[a - lo : a - lo + len(d)] = d
    return bytes(out)


def run_case(kind, p):
    import objutils

    if kind == "loads":
        a, n = p
        data = pattern(n, 1) if n > 0 else bytes([-n - 1, 0x1A, -n - 1])
        args = () if a is None else (a,)
        img = objutils.loads("bin", data, *args)
        check_eq(snap(img), ((a or 0, data),), "loaded image")
        if a is not None:
            check_eq(snap(objutils.loads("bin", data, address=a)), ((a, data),), "loaded image, keyword address")
        check_eq(bytes(objutils.dumps("bin", img)), data, "binary round trip")
        return hash((a, data))
    if kind == "bad":
        f = eval(p[0])
        img = images.make_image(((0, b"ab"), (5, b"c")))
        expect_raises((TypeError, ValueError), objutils.dumps, "bin", img, f, _what=f"filler {f!r}")
        return "refused"
    if kind == "empties":
        base, mask, at, order, join = p
        on = [i for i in range(5) if mask >> i & 1]
        secs = [objutils.Section(base + i, pattern(1, i)) for i in on]
        extra = [objutils.Section(base + i) for i in at]
        img = objutils.Image(extra + secs if order else secs + extra, join=join)
        want = bytes(pattern(1, i)[0] if mask >> i & 1 else 0x5A for i in range(on[0], on[-1] + 1))
        check_eq(bytes(objutils.dumps("bin", img, 0x5A)), want, "binary image")
        return want
    if kind == "layouts":
        base, mask, cells, join = p
        img = objutils.Image(join=join)
        for i in range(cells):
            if mask >> i & 1:
                img.insert_section(pattern(1, i), base + i, join=join)
        on = [i for i in range(cells) if mask >> i & 1]
        want = bytes(pattern(1, i)[0] if mask >> i & 1 else 0xFF for i in range(on[0], on[-1] + 1))
        before = snap(img)
        check_eq(bytes(objutils.dumps("bin", img)), want, "binary image")
        check_eq(snap(img), before, "image after dumps")
        sink = Sink()
        objutils.dump("bin", sink, img, b"\x00")
        check_eq(sink.getvalue(), bytes(pattern(1, i)[0] if mask >> i & 1 else 0 for i in range(on[0], on[-1] + 1)), "dump with filler 0")
        return want
    if kind == "fillers":
        f, form = p
        secs = ((0x10, pattern(3, 1)), (0x18, pattern(2, 2)), (0x1B, pattern(4, 3)), (0x40, pattern(1, 4)))
        img = images.make_image(secs)
        if form == "default":
            check_eq(bytes(objutils.dumps("bin", img)), flat(secs), "default filler")
            return "default"
        arg = f if form == "int" else bytes([f])
        out = objutils.dumps("bin", img, filler=arg) if form == "kw" else objutils.dumps("bin", img, arg)
        check_eq(bytes(out), flat(secs, f), f"filler {arg!r}")
        return bytes(out)
    if kind == "many":
        k, n, gap, base = p
        secs = tuple((base + i * (n + gap), pattern(n, i)) for i in range(k))
        for join in (True, False):
            img = objutils.Image([objutils.Section(a, d) for a, d in secs], join=join)
            check_eq(bytes(objutils.dumps("bin", img)), flat(secs), "binary image")
            check_eq(bytes(objutils.dumps("bin", img, 0x5A)), flat(secs, 0x5A), "binary image")
            check_eq(snap(img), secs, "image after writing")
        return hash(flat(secs))
    base, n1, g, n2 = p
    secs = ((base, pattern(n1, 1)), (base + n1 + g, pattern(n2, 2)))
    img = images.make_image(secs)
    check_eq(bytes(objutils.dumps("bin", img)), flat(secs), "binary image")
    back = objutils.loads("bin", objutils.dumps("bin", img, b"\x5a"), base)
    check_eq(snap(back), ((base, flat(secs, 0x5A)),), "read back")
    return hash(flat(secs))
