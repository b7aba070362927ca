"""M05: an image depends only on the bytes and addresses put into it, not on how they were cut or ordered."""

import copy
import itertools
import pickle

from mc.core import check, check_eq, pattern
from mc.checks.c03 import compositions
from mc.refmem import normalize, snap

ID = "M05"
LEVEL = "exploration"
RULE = (
    "Every way to cut small memory layouts into sections, in every order, through every construction path (constructor, "
    "insertion, join afterwards, joining a list, copying an image); all results must be the coalesced map and compare equal; "
    "every one byte, one address or one section change must compare unequal."
)
ASSUMPTIONS = ["sections do not overlap", "images which hold no byte at all may differ in empty sections"]


def spaces(tier):
    n = 6 if tier == "quick" else 8

    def cuts():
        for base in (0, 0xFFFE, 0xFFFFFFFD):
            for comp in compositions(n):
                k = len(comp)
                perms = list(itertools.permutations(range(k))) if k <= 4 else [tuple(range(k)), tuple(reversed(range(k))), (*range(1, k), 0), (*range(0, k, 2), *range(1, k, 2))]
                for perm in perms:
                    for hole in (None, *range(k)) if k <= 3 else (None, 0, k // 2, k - 1):
                        if hole is not None and k == 1:
                            continue
                        yield [base, comp, list(perm), hole]

    def large():
        for lens in itertools.product((1, 16, 255, 256, 257), repeat=3):
            for gaps in itertools.product((0, 1, 256), repeat=2):
                for perm in itertools.permutations(range(3)):
                    yield [0xFF00, list(lens), list(gaps), list(perm)]

    def many():
        for k in (10, 100, 300):
            for step in (4, 5, 8):
                for order in ("asc", "desc", "mix"):
                    yield [k, step, order]

        for k in (999, 1000, 1001) if tier == "quick" else (999, 1000, 1001, 2001):
            for step in (4, 6):
                for order in ("asc", "desc", "mix"):
                    yield [k, step, order]

    def unequal():
        for spec in (
            [[0, 300]],
            [[0, 256], [0x200, 257]],
            [[i * 16, 4] for i in range(17)],
            [[i * 16, 1 + i % 5] for i in range(64)],
            [[0xFFFFFFF0, 4], [1 << 33, 4]],
        ):
            for what in ("byte", "address", "step", "grow", "shrink", "front", "drop", "extra", "split", "swap"):
                for i in range(len(spec)):
                    yield [spec, what, i]
        for i in (0, 1, 254, 255, 256, 999, 1000, 1001, 1099):
            for what in ("byte", "address", "step", "grow", "drop"):
                yield [[[16 * i, 4] for i in range(1100)], what, i]
        for spec in ([[0, 1]], [[0, 4]], [[0, 4], [8, 4]], [[0, 2], [4, 2], [8, 2]], [[0x100, 16], [0x200, 16]]):
            for what in ("byte", "address", "step", "grow", "shrink", "front", "drop", "extra", "split", "swap"):
                for i in range(len(spec)):
                    yield [spec, what, i]

    def big():
        for n in (2, 255, 256, 257, 1024, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131072) + (() if tier == "quick" else (1 << 18, 1 << 20)):
            for base in (0, 0x8000, 0xFFFFFF00):
                for k in (0, 1):
                    yield [base, n, k]

    def empties():
        """Empty sections hold no byte, they must not make a difference."""
        k = 3 if tier == "quick" else 4
        for comp in ((4,), (1, 3), (2, 2), (1, 1, 2)):
            for hole in (None, *range(len(comp))) if len(comp) > 1 else (None,):
                for where in itertools.chain.from_iterable(itertools.combinations_with_replacement(range(7), r) for r in range(1, k)):
                    for order in range(3):
                        yield [comp, hole, list(where), order]

    return {"cuts": cuts, "empties": empties, "large": large, "many": many, "unequal": unequal, "big": big}


def pieces(p, kind):
    if kind == "cuts":
        base, comp, perm, hole = p
        out, a = [], base
        for i, n in enumerate(comp):
            out.append((a, pattern(n, i)))
            a += n
        return [out[i] for i in perm if i != hole]
    if kind == "large":
        base, lens, gaps, perm = p
        out, a = [], base
        for n, g, i in zip(lens, [*gaps, 0], range(3)):
            out.append((a, pattern(n, i)))
            a += n + g
        return [out[i] for i in perm]
    k, step, order = p
    idx = list(range(k))
    if order == "desc":
        idx.reverse()
    elif order == "mix":
        idx = [(i * 7) % k for i in idx] if k % 7 else idx[::2] + idx[1::2]
    return [(i * step, pattern(4, i)) for i in idx]


def big(base, n, where):
    """Large sections, one byte changed at the start, the end, every power of two and next to it; one byte more or less."""
    from objutils import Image, Section

    first = [(base, pattern(3, 1))] if where else []
    data = pattern(n, 7)
    at = base + 100 * where
    a = Image([Section(x, d) for x, d in [*first, (at, data)]])
    b = Image([Section(x, d) for x, d in [*first, (at, data)]])
    half = n // 2
    c = Image([Section(x, d) for x, d in [*first, (at + half, data[half:]), (at, data[:half])]])
    check(a == b and not a != b and a == c and not a != c, "equal images of %d bytes", n)
    spots = {0, 1, half, n - 2, n - 1}
    for k in range(n.bit_length()):
        spots |= {(1 << k) - 1, 1 << k, (1 << k) + 1}
    for i in sorted(x for x in spots if 0 <= x < n):
        for bit in (1, 0x80):
            b.write(at + i, bytes([data[i] ^ bit]))
            check(a != b and not a == b, "byte %d of %d changed, images compare equal", i, n)
            check(a[where] != b[where] and not a[where] == b[where], "byte %d of %d changed, sections compare equal", i, n)
        b.write(at + i, data[i : i + 1])
    check(a == b and not a != b and a[where] == b[where], "bytes restored")
    for other in ((at, data + b"\0"), (at, data[:-1]), (at + 1, data), (at + 1, data[1:]), (at + (1 << 32), data), (at + (1 << 16), data), (at + 256, data)):
        c = Image([Section(x, d) for x, d in [*first, other]])
        check(a != c and not a == c and not c == a, "images of %d and %d bytes at 0x%x compare equal", n, len(other[1]), other[0])
    return n


def empties_case(comp, hole, where, order):
    from objutils import Image, Section
    from objutils.exceptions import InvalidAddressError
    from objutils.section import join_sections

    ps = pieces([0x10, comp, range(len(comp)), hole], "cuts")
    none = [(0xF + a, b"") for a in where]
    plain = Image([Section(a, d) for a, d in ps])
    want = normalize({a + i: b for a, d in ps for i, b in enumerate(d)})
    check_eq(snap(plain), want, "image without empty sections")
    seq = [none + ps, ps + none, ps[::-1] + none[::-1]][order]
    made = {"constructor": Image([Section(a, d) for a, d in seq])}
    made["joined list"] = Image(join_sections(sorted((Section(a, d) for a, d in seq), key=lambda s: s.start_address)))
    made["copy"] = Image(made["constructor"])
    x = Image([Section(a, d) for a, d in seq], join=False)
    check_eq(normalize({s.start_address + i: b for s in x for i, b in enumerate(s.data)}), want, "bytes before joining")
    x.join_sections()
    made["joined later"] = x
    for join in (True, False):
        x = Image()
        for a, d in seq:
            try:
                x.insert_section(d, a, join=join)
            except InvalidAddressError:
                check(not d, "section with content refused at %x", a)  # an empty one inside of another section
        x.join_sections()
        made[f"insertion, {join}"] = x
    for how, img in made.items():
        check_eq(snap(img), want, f"image made by {how}")
        check(img == plain and plain == img and not (img != plain), "image made by %s differs from the one without empty sections", how)
    return hash(want)


def run_case(kind, p):
    from objutils import Image, Section
    from objutils.section import join_sections

    if kind == "big":
        return big(*p)
    if kind == "unequal":
        spec, what, i = p
        a = Image([Section(x, pattern(n, x & 0xFF)) for x, n in spec])
        b = Image([Section(x, pattern(n, x & 0xFF)) for x, n in spec])
        check(a == b and not a != b, "equal images")
        x, n = spec[i]
        if what == "byte":
            for k in range(n):
                old = bytes(b.read(x + k, 1))
                b.write(x + k, bytes([old[0] ^ 1]))
                check(a != b and not a == b, "byte %d changed, images compare equal", k)
                b.write(x + k, old)
                check(a == b, "byte %d restored, images differ", k)
            return n
        secs = [(y, pattern(m, y & 0xFF)) for y, m in spec]
        if what == "address":
            secs[i] = (secs[i][0] + 0x1000, secs[i][1])
        elif what == "step":
            secs[i] = (secs[i][0] + 1, secs[i][1])
            if any(secs[i][0] < y + len(m) and y < secs[i][0] + len(secs[i][1]) for y, m in secs[:i] + secs[i + 1 :]):
                return "skip"
        elif what == "shrink":
            if n == 1:
                return "skip"
            secs[i] = (secs[i][0], secs[i][1][:-1])
        elif what == "front":
            if n == 1:
                return "skip"
            secs[i] = (secs[i][0] + 1, secs[i][1][1:])
        elif what == "split":
            if n < 3:
                return "skip"
            d = secs[i][1]
            secs[i] = (secs[i][0], d[: n // 2])
            secs.insert(i + 1, (x + n // 2 + 1, d[n // 2 + 1 :]))
        elif what == "swap":
            j = (i + 1) % len(secs)
            if j == i or secs[i][1] == secs[j][1]:
                return "skip"
            di, dj = secs[i][1], secs[j][1]
            secs[i], secs[j] = (secs[i][0], dj), (secs[j][0], di)
            for u, v in zip(sorted(secs), sorted(secs)[1:]):
                if u[0] + len(u[1]) >= v[0]:
                    return "skip"
        elif what == "grow":
            secs[i] = (secs[i][0], secs[i][1] + b"\0")
        elif what == "drop":
            del secs[i]
        else:
            secs.append((0x5000 + i, b"\0"))
        c = Image([Section(y, d) for y, d in secs])
        check(a != c and not a == c, "images compare equal although %s", what)
        check(c != a and not c == a, "images compare equal although %s", what)
        return what
    if kind == "empties":
        return empties_case(*p)
    ps = pieces(p, kind)
    want = normalize({a + i: b for a, d in ps for i, b in enumerate(d)})
    made = {}
    made["constructor"] = Image([Section(a, d) for a, d in ps])
    made["tuple"] = Image(tuple(Section(a, d) for a, d in ps))
    made["generator"] = Image(Section(a, d) for a, d in ps)
    x = Image()
    for a, d in ps:
        x.insert_section(d, a)
    made["insertion"] = x
    x = Image()
    for a, d in ps:
        x.insert_section(d, a, join=False)
    check_eq(snap(x), tuple(sorted(ps)), "sections before joining")
    x.join_sections()
    made["joined later"] = x
    x = Image([Section(a, d) for a, d in ps], join=False)
    check_eq(snap(x), tuple(sorted(ps)), "sections before joining")
    x.join_sections()
    made["constructor, joined later"] = x
    made["copy"] = Image(made["constructor"])
    made["deep copy"] = copy.deepcopy(made["constructor"])
    made["pickle"] = pickle.loads(pickle.dumps(made["constructor"]))
    lst = sorted((Section(a, d) for a, d in ps), key=lambda s: s.start_address)
    check_eq([s.start_address for s in sorted(Section(a, d) for a, d in ps)], sorted(a for a, _ in ps), "sections sorted by address")
    j = join_sections(lst)
    check_eq(tuple((s.start_address, bytes(s.data)) for s in j), want, "joined list")
    check_eq([(s.start_address, bytes(s.data)) for s in lst], sorted(ps), "list passed to join_sections")
    j2 = join_sections([Section(a, d) for a, d in ps])  # as given: only neighbours in the list are joined
    check_eq(normalize({s.start_address + i: b for s in j2 for i, b in enumerate(s.data)}), want, "bytes of an unsorted joined list")
    check_eq(sum(len(s) for s in j2), sum(len(d) for _, d in ps), "length of an unsorted joined list")
    made["joined list"] = Image(j)
    made["unsorted joined list"] = Image(j2)
    if len(ps) == 1:
        made["single section"] = Image(Section(*ps[0]))
    for how, img in made.items():
        check_eq(snap(img), want, f"image made by {how}")
        check_eq(len(img), sum(len(d) for _, d in want), f"length of the image made by {how}")
        check(img == made["insertion"] and not (img != made["insertion"]), "image made by %s differs", how)
    return hash(want)
