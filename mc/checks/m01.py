"""M01: an image is a sparse byte map; every operation history agrees with the reference model."""

import itertools

from mc import core
from mc.core import Violation, check, check_eq, expect_raises, pattern
from mc.refmem import RefImage, normalize, snap

ID = "M01"
LEVEL = "model_checking"
RULE = (
    "Explicit-state search: a state is reached by a history of insert/write/join operations on a small address window, "
    "every transition runs on the real image in lockstep with a byte-map model and all observers are compared."
)
BOUNDS = {
    "quick": "window of 6 addresses at 5 bases, histories up to length 4 from empty; all 2^11 single byte layouts x 4 insertion orders",
    "thorough": "window of 7 addresses, histories up to length 5; 2^13 layouts",
}
ASSUMPTIONS = ["data values are drawn from a fixed per-operation pattern", "whether an empty section is listed is open"]
CASE_TIMEOUT = 600

BASES = [0, 0x7FFC, 0xFFFD, 0xFFFFFFFC, 0x7FFFFFFFFFFFFFFE]


def observe(img, ref, lo, hi, full=True):
    """Compare everything the API shows with the model; lo..hi is the observed address range."""
    from objutils import Section
    from objutils.exceptions import InvalidAddressError

    want = ref.snapshot()
    check_eq(snap(img), want, "sections")
    check_eq(len(img), sum(len(d) for _, d in want), "image length")
    check_eq([(s.start_address, bytes(s.data)) for s in img], list(want), "iteration")
    check_eq(len(img.sections), len(want), "number of sections")
    for i, (s, d) in enumerate(want):
        sec = img[i]
        check_eq((sec.start_address, sec.address, sec.length, len(sec)), (s, s, len(d), len(d)), f"section {i}")
        check_eq(sec.tobytes(), d, f"tobytes of section {i}")
        check_eq(sec.tolist(), list(d), f"tolist of section {i}")
        check(isinstance(sec, Section), "sections are Section objects")
    for a in range(max(lo, 0), hi):
        f = ref.frag_of(a)
        check_eq(a in img, f is not None, f"{a:#x} in image")
        if f is None:
            expect_raises((InvalidAddressError,), img.get_section, a, _what=f"get_section({a:#x})")
            expect_raises((InvalidAddressError,), img.read, a, 1, _what=f"read({a:#x}, 1)")
            for n in (1, 2, 3):
                if ref.frag_of(a + n - 1) is None:
                    expect_raises((InvalidAddressError,), img.update_section, b"\xee" * n, a, _what=f"update_section({a:#x}, {n})")
            continue
        check_eq(img.get_section(a).start_address, f[0], f"get_section({a:#x})")
        for n in (-1, -2) if full else (-1,):  # would be cut off at the wrong end
            expect_raises((InvalidAddressError, ValueError), img.read, a, n, _what=f"read({a:#x}, {n})")
        for n in range(1, hi - a + 1) if full else (1, 2, f[0] + len(f[1]) - a, f[0] + len(f[1]) - a + 1):
            exp = ref.read(a, n)
            if exp is None:
                expect_raises((InvalidAddressError,), img.read, a, n, _what=f"read({a:#x}, {n})")
            else:
                check_eq(bytes(img.read(a, n)), exp, f"read({a:#x}, {n})")
    check_eq(snap(img), want, "sections after reading")


def apply(pair, ev, base):
    from objutils.exceptions import InvalidAddressError

    img, ref = pair
    op = ev[0]
    if op == "insert":
        _, off, n, join, seed = ev
        addr = None if off is None else base + off
        data = pattern(n, seed)
        before = ref.snapshot()
        if ref.clone().insert(addr, data, join):
            ref.insert(addr, data, join)
            img.insert_section(data, addr, join=join)
        else:
            expect_raises((InvalidAddressError,), img.insert_section, data, addr, join=join, _what=f"overlapping {ev}")
            check_eq(snap(img), before, f"refused {ev} changed the image")
    elif op == "write":
        _, off, n, seed = ev
        data = pattern(n, seed)
        before = ref.snapshot()
        if ref.write(base + off, data):
            img.write(base + off, data)
        else:
            expect_raises((InvalidAddressError,), img.write, base + off, data, _what=f"out of bounds {ev}")
            check_eq(snap(img), before, f"refused {ev} changed the image")
    elif op == "join":
        ref.join()
        img.join_sections()
    else:
        raise core.HarnessError(op)


def events(window, joins=(True, False)):
    evs = []
    for n in (1, 2, 3):
        for off in range(window - n + 1):
            for join in joins:
                evs.append(("insert", off, n, join, 0))
    for n in (1, 2):
        evs.append(("insert", None, n, True, 1))
    for n in (1, 3):
        for off in range(window):
            evs.append(("write", off, n, 2))
    evs.append(("join",))
    return evs


EMPTIES = [[off, n, join] for off in range(4) for n in (0, 1, 2) for join in (True, False)]


def spaces(tier):
    window, depth, cells = (6, 4, 11) if tier == "quick" else (7, 5, 13)

    def searches():
        evs = events(window)
        for base in BASES if tier == "thorough" else (0, 0xFFFD):
            for first in range(len(evs)):
                yield [base, window, depth, first]
        for base in BASES:
            yield [base, 4, 3, None]

    def layouts():
        for base in (0xFFFA, 0):
            for mask in range(1, 1 << cells):
                for order in ("asc", "desc", "evenodd", "inout"):
                    yield [base, cells, mask, order]

    def big():
        for base in BASES:
            for lens in itertools.product((1, 255, 256, 300), repeat=3):
                for gaps in itertools.product((0, 1, 256), repeat=2):
                    yield [base, list(lens), list(gaps)]

    def many():
        for base in (0, 0xFFF0):
            for n in (17, 64, 257):
                for step in (1, 2, 3):
                    for order in ("asc", "desc", "evenodd", "inout"):
                        yield [base, n, step, order]

    def crowd():
        """Around the block sizes of a sorted container."""
        for n in (999, 1000, 1001, 2001) if tier == "quick" else (999, 1000, 1001, 1999, 2000, 2001, 4001):
            for order in ("asc", "desc", "evenodd", "inout"):
                for length in (1, 3):
                    yield [0x10000, n, order, length]

    def wide():
        for addrs in itertools.permutations((0, 0xFF, 0xFFFF, 0xFFFFFE, 0xFFFFFFFF, (1 << 64) - 2, 1 << 72), 4):
            yield [list(addrs)]

    def blocks():
        for n in (4095, 4096, 4097, 65535, 65536, 65537, 1 << 20):
            for base in (0, 0xFFFF, 0xFFFFFFF0):
                yield [base, n]

    def empties():
        """Histories of insertions some of which are empty: they hold nothing, so they must not change what is seen of the others."""
        for base in (0, 0xFFFE):
            for first in range(len(EMPTIES)):
                for second in range(len(EMPTIES)):
                    yield [base, 3 if tier == "quick" else 4, first, second]

    return {"empties": empties, "search": searches, "layout": layouts, "big": big, "many": many, "crowd": crowd, "wide": wide, "blocks": blocks}


def ordered(items, order):
    items = list(items)
    if order == "desc":
        return items[::-1]
    if order == "evenodd":
        return items[::2] + items[1::2]
    if order == "inout":
        out = []
        while items:
            out.append(items.pop(len(items) // 2))
        return out
    return items


def run_case(kind, p):
    from objutils import Image
    from objutils.exceptions import InvalidAddressError

    if kind == "search":
        base, window, depth, first = p
        evs = events(window)

        def make():
            pair = (Image(), RefImage())
            if first is not None:
                apply(pair, evs[first], base)
            return pair

        def step(pair, ev):
            apply(pair, ev, base)

        seen = set()

        def step_observed(pair, ev):
            apply(pair, ev, base)

        def canon(pair):
            k = (pair[1].snapshot(), pair[1].cursor)
            if k not in seen:
                seen.add(k)
                observe(pair[0], pair[1], base - 1, base + window + 1)
            else:
                check_eq(snap(pair[0]), k[0], "sections")
            return k

        return core.bfs(make, lambda pair: evs, step_observed, canon, depth - (first is not None))

    if kind == "empties":
        base, depth, *start = p
        n = 0
        for rest in itertools.product(range(len(EMPTIES)), repeat=depth - 2):
            img, ref, hist = Image(), RefImage(), [EMPTIES[k] for k in (*start, *rest)]
            for i, (off, k, join) in enumerate(hist):
                if k:
                    data, fits = pattern(k, i), not ref.overlaps(base + off, k)
                    try:
                        img.insert_section(data, base + off, join=join)
                    except InvalidAddressError:
                        check(not fits, "insertion refused: %s", hist[: i + 1])
                    else:
                        check(fits, "overlapping insertion accepted: %s", hist[: i + 1])
                        ref.insert(base + off, data, join)
                else:
                    try:  # Refused inside of a section.
                        img.insert_section(b"", base + off, join=join)
                    except InvalidAddressError:
                        check(ref.overlaps(base + off, 0), "empty insertion refused: %s", hist)
                    else:
                        ref.cursor = base + off
                    if join:  # Even if refused, nothing is changed.
                        seen = [x for x in snap(img) if x[1]]
                        if seen != list(ref.snapshot()):
                            ref.join()
                want = list(ref.snapshot())
                check_eq([x for x in snap(img) if x[1]], want, f"sections after {hist[: i + 1]}")
                check_eq(len(img), sum(len(d) for _, d in want), "image length")
                for a in range(max(base - 1, 0), base + 7):
                    f = ref.frag_of(a)
                    check_eq(a in img, f is not None, f"{a:#x} in image after {hist[: i + 1]}")
                    if f is None:
                        expect_raises((InvalidAddressError,), img.get_section, a, _what=f"get_section({a:#x})")
                        expect_raises((InvalidAddressError,), img.read, a, 1, _what=f"read({a:#x}, 1)")
                    else:
                        got = img.get_section(a)
                        check_eq((got.start_address, bytes(got.data)), (f[0], bytes(f[1])), f"get_section({a:#x}) after {hist[: i + 1]}")
                        check_eq(bytes(img.read(a, 1)), ref.read(a, 1), f"read({a:#x}, 1)")
                n += 1
        return n
    img, ref = Image(), RefImage()
    if kind == "layout":
        base, cells, mask, order = p
        for i in ordered([i for i in range(cells) if mask >> i & 1], order):
            apply((img, ref), ("insert", i, 1, True, i), base)
        observe(img, ref, base - 1, base + cells + 1, full=False)
        # A second image built with the opposite order, joined only at the end, must be equal.
        other = Image()
        for i in reversed(ordered([i for i in range(cells) if mask >> i & 1], order)):
            other.insert_section(pattern(1, i), base + i, join=False)
        other.join_sections()
        check(img == other, "insertion order matters")
        check(not (img != other), "!= contradicts ==")
        return ref.snapshot()
    if kind == "big":
        base, lens, gaps = p
        addr = 0
        spans = []
        for n, g in zip(lens, gaps + [0]):
            spans.append((addr, n))
            addr += n + g
        for k in (1, 0, 2):
            apply((img, ref), ("insert", spans[k][0], spans[k][1], True, k), base)
            observe_edges(img, ref, base, spans)
        for off, n in spans:
            apply((img, ref), ("insert", off + n - 1, 1, True, 9), base)
            apply((img, ref), ("insert", off, 1, True, 9), base)
            if off:
                apply((img, ref), ("insert", off - 1, n + 2, True, 9), base)
            apply((img, ref), ("write", off, n, 7), base)
            apply((img, ref), ("write", off + n - 1, 1, 8), base)
            apply((img, ref), ("write", off + n - 1, 2, 8), base)
            observe_edges(img, ref, base, spans)
        return ref.snapshot()
    if kind == "many":
        base, n, step_, order = p
        for i in ordered(range(n), order):
            apply((img, ref), ("insert", i * step_, 1 if step_ < 3 else 2, True, i), base)
        observe(img, ref, base - 1, base + n * step_ + 2, full=False)
        return ref.snapshot()
    if kind == "crowd":
        base, n, order, length = p
        gap = length + 1
        for i in ordered(range(n), order):
            img.insert_section(pattern(length, i), base + i * gap, join=False)
        want = tuple((base + i * gap, pattern(length, i)) for i in range(n))
        check_eq(snap(img), want, "sections")
        img.join_sections()
        check_eq(snap(img), want, "sections after joining")
        points = sorted({0, 1, 2, 499, 500, 501, 998, 999, 1000, n // 2, n - 2, n - 1} & set(range(n)))
        for i in points:
            a = base + i * gap
            expect_raises((InvalidAddressError,), img.insert_section, b"\1", a, _what=f"overlapping insert at {a:#x}")
            expect_raises((InvalidAddressError,), img.insert_section, b"\1" * 2, a + length, join=i & 1 == 0, _what=f"overlapping insert before {a + gap:#x}") if i < n - 1 else None
            check_eq(img.get_section(a + length - 1).start_address, a, f"get_section({a + length - 1:#x})")
            check_eq(bytes(img.read(a, length)), pattern(length, i), f"read({a:#x})")
            check_eq((a + length in img, a in img), (False, True), f"addresses around {a + length:#x}")
            img.write(a + length - 1, b"\xee")
            expect_raises((InvalidAddressError,), img.write, a + length, b"\xee", _what="write into a gap")
            check_eq(bytes(img.read(a, length)), pattern(length, i)[:-1] + b"\xee", "bytes written")
        want = tuple((a, d[:-1] + b"\xee" if i in points else d) for i, (a, d) in enumerate(want))
        check_eq(snap(img), want, "sections after writing")
        for i in points[::-1]:  # filling a gap joins its neighbours
            img.insert_section(b"\x77", base + i * gap + length, join=True)
        m = {a + k: b for a, d in want for k, b in enumerate(d)}
        m.update((base + i * gap + length, 0x77) for i in points)
        check_eq(snap(img), normalize(m), "sections after filling gaps")
        check_eq(len(img), len(m), "image length")
        return n
    if kind == "wide":
        for i, a in enumerate(p[0]):
            apply((img, ref), ("insert", a, 2 if i & 1 else 1, True, i), 0)
            apply((img, ref), ("insert", None, 1, i & 2 == 0, i + 9), 0)
            apply((img, ref), ("write", a, 1, 5), 0)
        observe_edges(img, ref, 0, [(a, 2) for a in p[0]])
        return ref.snapshot()
    if kind == "blocks":
        base, n = p
        a, b = pattern(n, 1), pattern(n, 2)
        img.insert_section(b, base + n + 1)
        img.insert_section(a, base)
        check_eq(snap(img), ((base, a), (base + n + 1, b)), "two blocks")
        for off, k in ((n, 2), (n - 1, 1), (0, 1), (n // 2, 1), (2 * n, 5), (n - 1, 3)):
            expect_raises((InvalidAddressError,), img.insert_section, bytes(k), base + off, _what=f"overlap at {off}")
        check_eq(snap(img), ((base, a), (base + n + 1, b)), "two blocks")
        img.write(base + n - 1, b"\5")
        expect_raises((InvalidAddressError,), img.write, base + n - 1, b"\6\6", _what="write over the end")
        expect_raises((InvalidAddressError,), img.read, base + 1, n, _what="read over the end")
        img.insert_section(b"\7", base + n)
        want = a[:-1] + b"\5\7" + b
        check_eq(snap(img), ((base, want),), "joined blocks")
        check_eq(bytes(img.read(base + n - 2, 5)), want[n - 2 : n + 3], "bytes at the seam")
        check_eq(bytes(img.read(base, 2 * n + 1)), want, "all bytes")
        img.write(base + 1, b)
        want = want[:1] + b + want[1 + n :]
        check_eq(bytes(img.read(base, 2 * n + 1)), want, "all bytes after writing")
        return n


def observe_edges(img, ref, base, spans):
    from objutils.exceptions import InvalidAddressError

    check_eq(snap(img), ref.snapshot(), "sections")
    check_eq(len(img), sum(len(d) for _, d in ref.snapshot()), "image length")
    points = {base + o + d for o, n in spans for d in (-1, 0, 1, n - 1, n)}
    for a in sorted(points):
        if a < 0:
            continue
        f = ref.frag_of(a)
        check_eq(a in img, f is not None, f"{a:#x} in image")
        if f is None:
            expect_raises((InvalidAddressError,), img.get_section, a)
            continue
        check_eq(img.get_section(a).start_address, f[0], f"get_section({a:#x})")
        room = f[0] + len(f[1]) - a
        check_eq(bytes(img.read(a, room)), ref.read(a, room), f"read({a:#x}, {room})")
        expect_raises((InvalidAddressError,), img.read, a, room + 1)
