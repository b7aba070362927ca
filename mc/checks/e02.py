"""E02: the memory image extracted from an ELF file."""

import itertools
import re

from mc import core, elfgen, elfs
from mc.core import check_eq, pattern
from mc.refmem import normalize, snap

ID = "E02"
LEVEL = "exploration"
RULE = (
    "All sequences of up to 3 (4) sections over an alphabet of 9 kinds (allocated or not, with and without content), all address orders "
    "of 4 adjacent and separate sections up to 2^64, 7 names x include x exclude patterns, with and without joining, up to 300 (3000) sections, "
    "freshly imported and from the data base; the image and the order of callbacks are compared with the section headers."
)
ASSUMPTIONS = ["allocated sections with content do not overlap", "names are ASCII or UTF-8"]

KINDS = {
    "text": dict(type=1, flags=6, n=3),
    "data": dict(type=1, flags=3, n=2),
    "bss": dict(type=8, flags=3, n=None, size=5),
    "debug": dict(type=1, flags=0, n=4),
    "empty": dict(type=1, flags=2, n=0),
    "null": dict(type=0, flags=2, n=3),
    "note": dict(type=1, flags=0x32, n=1),
    "array": dict(type=14, flags=3, n=4),
    "wonly": dict(type=1, flags=0xFFFFFFF5 & ~2, n=2),
}
NAMES = [".text", ".text.foo", ".data", ".rodata", "data", "", "\xe9.text"]
PATTERNS = ["", ".text", r"\.text", r"\.text$", ".*data", ".data", "data", r"[.](text|data)$", "x", "^$", ".", "(?!.text)", ".TEXT", "(?i).TEXT", r"\w.text"]


def spaces(tier):
    deep = 3 if tier == "quick" else 4

    def kinds():
        for n in range(0, deep + 1):
            for seq in itertools.product(KINDS, repeat=n):
                if tier == "quick" and n == 3 and len(set(seq)) == 1:
                    continue
                yield [list(seq)]

    def orders():
        for cls in (1, 2):
            top = 1 << 32 * cls
            for base in (0, 0x1000, (top >> 1) - 6, top - 12):
                for perm in itertools.permutations(range(4)):
                    for gaps in range(8):
                        yield [cls, base, list(perm), gaps]

    def filters():
        for inc in range(len(PATTERNS)):
            for exc in range(len(PATTERNS)):
                yield [inc, exc]

    def flags():
        for bit in range(64):
            yield [2, 1 << bit]
            yield [2, 2 | 1 << bit]
        for bit in range(32):
            yield [1, 1 << bit]
            yield [1, 2 | 1 << bit]

    def types():
        for t in [*range(0, 20), *(1 << i for i in range(5, 32)), 0x6FFFFFF6, 0x70000001, 0x70000003, 0xFFFFFFFF]:
            yield [t]

    def independent():
        for joined in (False, True):
            for n in (1, 2, 3):
                yield [joined, n]

    def sizes():
        for n in (*range(1, 20), 255, 256, 257, 4096, 65536, 65537):
            yield [n]

    def large():
        for n in (16, 17, 31, 32, 33, 40, 64, 65, 100, 129, 257, 300, 520, 1030, *(() if tier == "quick" else (3000,))):
            for layout in range(3) if n < 1000 else (1,):
                yield [n, layout]

    return {"large": large, "kinds": kinds, "orders": orders, "filters": filters, "flags": flags, "types": types, "independent": independent, "sizes": sizes}


def run_case(kind, p):
    return globals()["do_" + kind](*p)


def sec(name, kind, addr, seed=0, **kw):
    k = KINDS[kind]
    s = dict(name=name, type=k["type"], flags=k["flags"] if kind != "wonly" else 0xFFFFFFFD & ~2, addr=addr, link=0, info=0, align=1, entsize=0, size=k.get("size", 0))
    s["data"] = None if k["n"] is None else pattern(k["n"], seed)
    s.update(kw)
    return s


def expected(sections, inc="", exc="", join=True):
    """(sections of the image, names in callback order) from the section headers."""
    use = [s for s in sections if s["flags"] & 2 and s["type"] not in (0, 8) and s["data"]]
    if inc:
        use = [s for s in use if re.match(inc, s["name"])]
    if exc:
        use = [s for s in use if not re.match(exc, s["name"])]
    use.sort(key=lambda s: s["addr"])
    parts = [(s["addr"], bytes(s["data"])) for s in use]
    if join:
        parts = normalize({a + i: b for a, d in parts for i, b in enumerate(d)})
    return tuple(parts), [s["name"] for s in use]


def extract(ep, sections, what, inc="", exc="", joins=(True, False)):
    for join in joins:
        want, names = expected(sections, inc, exc, join)
        trace = []
        img = ep.create_image(join=join, include_pattern=inc, exclude_pattern=exc, callback=lambda state, s: trace.append((state, s and s.section_name)))
        check_eq(snap(img), want, f"{what}: image (join={join}, include={inc!r}, exclude={exc!r})")
        check_eq(trace, [("start", None), *(("section", n) for n in names), ("stop", None)], f"{what}: callbacks")
        check_eq(snap(ep.create_image(join, inc, exc)), want, f"{what}: image without callback")
    return want


def run(cls, e, sections, *variants):
    blob, meta = elfgen.build(cls, e, sections)
    out = None
    with elfs.both(blob) as passes:
        for how, ep in passes():
            for inc, exc in variants or (("", ""),):
                out = extract(ep, meta["sections"], how, inc, exc)
    return hash(out)


def do_kinds(seq):
    secs = [sec(f".s{i}.{k}", k, 0x100 + 0x10 * i, i) for i, k in enumerate(seq)]
    touching, at = [], 0x200
    for i, k in enumerate(seq):
        touching.append(sec(f".t{i}", k, at, i + 5))
        at += len(touching[-1]["data"] or b"")
    return run(1 + len(seq) % 2, 1, secs + touching)


def do_orders(cls, base, perm, gaps):
    secs, at = [], base
    for i in range(4):
        n = (3, 1, 2, 2)[i]
        secs.append(sec(f".s{i}", "text", at, i, data=pattern(n, i)))
        at += n + (1 if gaps >> i & 1 else 0)
    return run(cls, 1 + gaps % 2, [secs[i] for i in perm])


def do_filters(inc, exc):
    secs = [sec(n, "data", 0x100 * i + 0x40, i, data=pattern(i + 1, i)) for i, n in enumerate(NAMES)]
    return run(1, 1, secs, (PATTERNS[inc], PATTERNS[exc]))


def do_flags(cls, flags):
    return run(cls, 1, [sec(".a", "text", 0x100), sec(".b", "text", 0x200, 1, flags=flags), sec(".c", "data", 0x300)])


def do_types(t):
    """Sections of every type: the allocated ones belong to the image, whatever they hold."""
    data = {3: b"\0abc\0", 7: bytes([0, 0, 0, 4, 0, 0, 0, 2, 0, 0, 0, 3]) + b"GNU\0\1\2\0\0", 2: bytes(range(32)), 11: bytes(range(48))}.get(t, pattern(5, 5))
    out = []
    for flags in (6, 2, 3, 0, 4, 0x12):
        for addr in (0x200, 0x103):  # Apart, touching.
            out.append(run(1, 2, [sec(".a", "text", 0x100), sec(".b", "text", addr, 1, type=t, flags=flags, data=data, size=len(data)), sec(".c", "data", 0x300)]))
    return hash(tuple(out))


def do_sizes(n):
    return run(1, 1, [sec(".b", "data", 0x100 + n, 1, data=pattern(n, 2)), sec(".a", "text", 0x100, 1, data=pattern(n, 1)), sec(".c", "data", 0x100 + 2 * n + 1)])


def do_large(n, layout):
    """Many sections: apart, touching, in descending order; patterns which select most of them."""
    secs = [sec(f".{'abc'[i % 3]}{i}.{'xy'[i % 2]}", ("data", "text", "bss", "debug")[0 if i % 5 else i // 5 % 4], 0x10 * i if layout != 1 else 2 * i, i, data=pattern(2, i)) for i in range(n)]
    for s in secs:
        if s["type"] == 8:
            s["data"] = None
    if layout == 2:
        secs.reverse()
    return run(1 + n % 2, 1 + layout % 2, secs, ("", ""), ("", r"\.a"), (r"\.[ab]", ""), (r".*x$", r".*7"), ("", ".*"), ("", r"\.\w\d+\.x"))


def do_independent(joined, n):
    """Images are values: changing one changes neither the file representation nor later images."""
    secs = [sec(f".s{i}", "data", 0x100 + (4 if joined else 8) * i, i, data=pattern(4, i)) for i in range(n)]
    blob, meta = elfgen.build(1, 1, secs)
    with elfs.both(blob) as passes:
        for how, ep in passes():
            want = extract(ep, meta["sections"], how)
            for join in (True, False):
                img = ep.create_image(join=join)
                for s in list(img):
                    s.write(s.start_address, b"\xee" * len(s))
                img.insert_section(b"zz", 0x4000)
                img.meta["x"] = 1
                check_eq(ep.create_image().meta, {}, "meta data")
                extract(ep, meta["sections"], f"{how}, after changing an image")
                check_eq([r.section_image for r in ep.sections.fetch() if r.section_image and r.sh_flags & 2], [bytes(s["data"]) for s in secs], "contents of sections")
    return hash(want)
