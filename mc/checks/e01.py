"""E01: an ELF file is represented exactly: headers, segments, sections and symbols."""

import itertools

from mc import core, elfgen, elfs
from mc.core import check, check_eq, expect_raises, pattern

ID = "E01"
CASE_TIMEOUT = 300
LEVEL = "exploration"
RULE = (
    "Every field of the file, segment, section and symbol headers x boundary and single-bit values x class x byte order, all "
    "binding/type combinations, all layouts of tables and up to 4 sections, several symbol tables, up to 513 (4097) sections, 300 (65534) segments, "
    "2500 (70000) symbols, names of up to 9000 (100000) characters, contents of up to 2^20 (2^26) bytes, every truncation of a small file; "
    "each file is read twice: imported, and from the data base of the import."
)
ASSUMPTIONS = [
    "no extended section numbering",
    "names are ASCII or UTF-8",
]
BOTH = [(c, e) for c in (1, 2) for e in (1, 2)]


def ints(bits):
    top = (1 << bits) - 1
    return [0, 1, top, top >> 1, 1 << bits - 1, 0x0123456789ABCDEF & top]


def wide(bits, tier):
    return ints(bits) + [1 << i for i in range(0, bits, 1 if tier != "quick" else 5)]


def spaces(tier):
    def header():
        for cls, e in BOTH:
            a = 32 * cls
            for field, bits in (("etype", 16), ("machine", 16), ("version", 8), ("entry", a), ("flags", 32), ("osabi", 8), ("abiversion", 8)):
                for v in wide(bits, tier):
                    yield [cls, e, field, v]

    def machines():
        for m in range(0, 260 if tier == "quick" else 1024, 4):
            yield [m]

    def section():
        for cls, e in BOTH:
            a = 32 * cls
            for field, bits in (("type", 32), ("flags", a), ("addr", a), ("link", 32), ("info", 32), ("align", a), ("entsize", a)):
                for v in wide(bits, tier):
                    yield [cls, e, field, v]

    def types():
        for t in [*range(0, 20), 0x60000000, 0x6FFF4700, *range(0x6FFFFFF5, 0x70000006), 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF]:
            for cls, e in ((1, 1), (2, 2)):
                yield [cls, e, t]

    def segment():
        for cls, e in BOTH:
            a = 32 * cls
            for field, bits in (("type", 32), ("flags", 32), ("offset", a), ("vaddr", a), ("paddr", a), ("filesz", a), ("memsz", a), ("align", a)):
                for v in wide(bits, tier):
                    yield [cls, e, field, v]

    def symbol():
        for cls, e in BOTH:
            a = 32 * cls
            for field, bits in (("value", a), ("size", a), ("other", 8)):
                for v in wide(bits, tier):
                    yield [cls, e, field, v]

    def symkinds():
        for cls, e in BOTH:
            for bind in range(16):
                yield [cls, e, bind]

    def symsections():
        for cls, e in BOTH:
            for n in (1, 2, 3):
                for seq in itertools.product(range(8), repeat=n):
                    if n == 3 and tier == "quick" and ((cls, e) != (2, 1) or seq[0] > seq[2]):
                        continue
                    yield [cls, e, list(seq)]

    def symtables():
        for cls, e in BOTH:
            for a in range(3):
                for b in range(3):
                    for order in range(4):
                        yield [cls, e, a, b, order]

    def layout():
        for cls, e in BOTH:
            for n in range(0, 5):
                for pad in (0, 1, 3):
                    for flags in range(8):
                        yield [cls, e, n, pad, flags]

    def names():
        pool = [".text", ".rel.text", "text", "t", ".t.e.x.t", ".data", "\xe9t", "\u4e2d\U0001f600.data"]
        for n in (1, 2, 3):
            for seq in itertools.permutations(pool, n):
                for share in (False, True):
                    yield [list(seq), share]

    def contents():
        for n in (*range(0, 34), 255, 256, 4095, 4096, 4097, 70000):
            for cls, e in ((1, 2), (2, 1)):
                yield [cls, e, n]

    def segments():
        for cls, e in BOTH:
            for n in range(0, 6):
                yield [cls, e, n]

    def truncated():
        for cls, e in BOTH:
            for part in range(16):
                yield [cls, e, part]

    def bad():
        for cls, e in BOTH:
            for x in range(12):
                yield [cls, e, x]

    def large():
        """Numbers and lengths far beyond the other spaces."""
        full = tier != "quick"
        for n in (15, 16, 17, 31, 33, 64, 100, 127, 129, 254, 255, 256, 257, 300, 513, *((1000, 4097) if full else ())):
            for order in range(3):
                yield ["sections", [n, order]]
        yield ["sections", [1040, 2]]
        for n in (15, 16, 17, 33, 127, 129, 255, 256, 257, 300, *((1025, 5000, 65534) if full else ())):
            yield ["segments", n]
        for n in (15, 16, 17, 100, 255, 256, 257, 999, 1000, 1001, 1025, 2500, 4400, *((9000, 10001, 70000) if full else ())):
            yield ["symbols", n]
        for n in (2, 3, 4, 5, 17, 40, *((129, 300) if full else ())):
            yield ["tables", n]
        for n in (31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 9000, *((65535, 65536, 100000) if full else ())):
            for what in ("ascii", "wide", "suffix"):
                yield ["name", [n, what]]
        for n in (1 << 16, (1 << 16) + 1, 1 << 20, *((1 << 24, 1 << 26) if full else ())):
            yield ["content", n]

    def tables():
        """Files without section headers, section names or symbol names; empty symbol and string tables."""
        for cls, e in BOTH:
            for type in (2, 11):
                for before in (0, 1):
                    for what in ("empty symbols", "empty both", "empty names", "no names", "tail"):
                        yield [cls, e, what, type, before]
            for what in ("sections", "names"):
                for n in range(4):
                    for segs in (0, 2):
                        yield [cls, e, "no section " + what, n, segs]

    return {"tables": tables, "large": large, "header": header, "machines": machines, "section": section, "types": types, "segment": segment, "symbol": symbol,
            "symkinds": symkinds, "symsections": symsections, "symtables": symtables, "layout": layout, "names": names,
            "contents": contents, "segments": segments, "truncated": truncated, "bad": bad}


def run_case(kind, p):
    return globals()["do_" + kind](*p)


# ---------------------------------------------------------------------------------------------------------

SPECIAL = {0: "SHN_UNDEF", 0xFFF1: "SHN_ABS", 0xFFF2: "SHN_COMMON", 0xFFFF: "SHN_XINDEX"}


def sec(name, **kw):
    s = dict(name=name, type=1, flags=2, addr=0, data=b"\1\2\3\4", link=0, info=0, align=4, entsize=0)
    s.update(kw)
    return s


def sym(name, **kw):
    s = dict(name=name, value=0, size=0, bind=1, type=2, other=0, shndx=1)
    s.update(kw)
    return s


def symtabs(cls, e, symbols, strname=".strtab", tabname=".symtab", index=0, share=False, type=2):
    """A string table (section number `index`) and the symbol table linked to it."""
    blob, offs = elfgen.strtab([s["name"] for s in symbols] + ["x"], share)
    data = elfgen.symtab(cls, e, symbols, offs)
    return [sec(strname, type=3, flags=0, data=blob), sec(tabname, type=type, flags=0, data=data, link=index, entsize=16 if cls == 1 else 24)], offs


def image_of(s):
    return s["data"] if s["type"] not in (0, 8) and s["data"] else None


def verify(ep, meta, symbols=None):
    """symbols: list of symbol dicts of the whole file"""
    want = dict(ei_class=meta["cls"], ei_data=meta["data"], ei_version=meta["version"], ei_osabi=meta["osabi"], ei_abiversion=meta["abiversion"],
                e_type=meta["etype"], e_machine=meta["machine"], e_version=meta["version"], e_entry=meta["entry"], e_phoff=meta["phoff"],
                e_shoff=meta["shoff"], e_flags=meta["flags"], e_ehsize=meta["ehsize"], e_phentsize=meta["phentsize"],
                e_phnum=len(meta["segments"]), e_shentsize=meta["shentsize"], e_shnum=meta["shnum"], e_shstrndx=meta["shstrndx"])
    check_eq({k: getattr(ep, k) for k in want}, want, "file header")
    ident = b"\x7fELF" + bytes((meta["cls"], meta["data"], meta["version"], meta["osabi"], meta["abiversion"])) + bytes(7)
    check_eq(bytes(ep.header_bytes), ident, "identification of the file")
    check_eq((ep.b64, ep.endianess), (meta["cls"] == 2, "<" if meta["data"] == 1 else ">"), "class and byte order")
    got = [tuple(getattr(s, "p_" + f) for f in SEG) for s in ep.segments]
    check_eq(got, [tuple(s[f] for f in SEG) for s in meta["segments"]], "segments")
    rows = sorted(ep.sections.fetch(), key=lambda s: s.index)
    check_eq([r.index for r in rows], list(range(meta["shnum"])), "section numbers")
    for r, s in zip(rows, meta["sections"]):
        got = tuple(getattr(r, f) for f in ("section_name", "sh_name", "sh_type", "sh_flags", "sh_addr", "sh_offset", "sh_size", "sh_link", "sh_info", "sh_addralign", "sh_entsize"))
        want = (s["name"], s["sh_name"], s["type"], s["flags"], s["addr"], s["offset"], s["size"], s["link"], s["info"], s["align"], s["entsize"])
        check_eq(got, want, f"section {r.index}")
        check_eq(r.section_image, image_of(s), f"content of section {r.index}")
    if symbols is not None:
        fetched = ep.symbols.fetch()
        got = []
        for name, group in fetched.items():
            for y in group:
                check_eq(y.section_name, name, "group")
                got.append((y.symbol_name, y.section_name, y.st_value, y.st_size, y.st_bind, y.st_type, y.st_other, y.st_shndx, y.access, y.st_name))
        want = []
        for y in symbols:
            x = y["shndx"]
            inside = x < meta["shnum"] and x not in SPECIAL
            name = SPECIAL.get(x) or (meta["sections"][x]["name"] if inside else str(x))
            want.append((y["name"], name, y["value"], y["size"], y["bind"], y["type"], y["other"], x, meta["sections"][x]["flags"] if inside else 0, y["offs"]))
        check_eq(sorted(got), sorted(want), "symbols")


SEG = ("type", "offset", "vaddr", "paddr", "filesz", "memsz", "flags", "align")


def seg(**kw):
    s = dict(type=1, offset=0, vaddr=0x1000, paddr=0x2000, filesz=0x10, memsz=0x20, flags=5, align=4)
    s.update(kw)
    return s


def offs_of(symbols, offs):
    for s in symbols:
        s["offs"] = offs[s["name"]]
    return symbols


def run(cls, e, sections, symbols=None, **kw):
    return verify_both(*elfgen.build(cls, e, sections, **kw), symbols)


def verify_both(blob, meta, symbols):
    with elfs.both(blob) as passes:
        for how, ep in passes():
            try:
                verify(ep, meta, symbols)
            except core.Violation as x:
                raise core.Violation(f"{how}: {x}") from x
    return core.digest((blob,)).hex()


def do_header(cls, e, field, v):
    return run(cls, e, [sec(".text")], [], segments=[seg()], **{field: v})


KNOWN_MACHINES = {3: ("386", "Intel 80386"), 40: ("ARM", "ARM"), 8: ("MIPS", "MIPS I Architecture"), 20: ("PPC", "PowerPC"), 2: ("SPARC", "SPARC"),
                  62: ("X86_64", "Advanced Micro Devices X86-64"), 83: ("AVR", "AVR"), 44: ("TRICORE", "tricore"), 183: ("AARCH64", "AArch64")}


def do_machines(m):
    """Every machine code can be opened."""
    out = []
    for k in range(4):
        blob, meta = elfgen.build(1 + k % 2, 1 + k // 2, [sec(".text")], machine=m + k, flags=0x05000085)
        with elfs.parsed(blob) as ep:
            verify(ep, meta, [])
            text = ep.machine_data
            out.append(text)
            if m + k == 83:
                check("avr:5" in text and "link-relax" in text, "AVR flags shown as %r", text)
            if m + k in (3, 40, 2):
                check_eq(text, "%s [%s]" % KNOWN_MACHINES[m + k], f"machine {m + k}")
    return tuple(out)


def do_section(cls, e, field, v):
    s = sec(".foo", **{field: v})
    if field == "type" and v in (2, 11, 7):
        return "skip"
    return run(cls, e, [sec(".text"), s, sec(".last", data=b"xyz")], [])


def do_types(cls, e, t):
    note = (4).to_bytes(4, "little" if e == 1 else "big") + (4).to_bytes(4, "little" if e == 1 else "big") + b"\1\0\0\0GNU\0abcd"
    data = note if t == 7 else None if t == 8 else b"" if t in (2, 11) else b"\1\2\3\4\5"
    s = sec(".foo", type=t, data=data, size=0x40 if t == 8 else 0)
    if t in (2, 11):
        tabs, offs = symtabs(cls, e, [sym("x", shndx=2)], index=1, type=t)
        y = offs_of([sym("x", shndx=2)], offs)
        return run(cls, e, tabs, y)
    if t == 3:
        s["data"] = b"\0abc\0"
    return run(cls, e, [sec(".text"), s], [])


def do_segment(cls, e, field, v):
    return run(cls, e, [sec(".text")], [], segments=[seg(), seg(**{field: v}), seg(type=2)])


def do_segments(cls, e, n):
    segs = [seg(type=1 + i, offset=i * 3, vaddr=i << 8, paddr=i << 12, filesz=i, memsz=i * 2, flags=i, align=1 << i) for i in range(n)]
    return run(cls, e, [sec(".text")], [], segments=segs)


def do_symbol(cls, e, field, v):
    tabs, offs = symtabs(cls, e, [sym("alpha"), sym("beta")], index=2)
    ys = offs_of([sym("alpha", shndx=1), sym("beta", shndx=1, **{field: v}), sym("alpha", shndx=1, value=5)], offs)
    tabs[1]["data"] = elfgen.symtab(cls, e, ys, offs)
    return run(cls, e, [sec(".text", flags=6), *tabs], ys)


def do_symkinds(cls, e, bind):
    ys = [sym(f"s{t}", bind=bind, type=t, value=t * 4, size=t, shndx=1 + t % 3) for t in range(16)]
    tabs, offs = symtabs(cls, e, ys, index=2)
    return run(cls, e, [sec(".text", flags=6), *tabs], offs_of(ys, offs))


def do_symsections(cls, e, seq):
    """Consecutive symbols in the same, different, special and undefined sections."""
    where = [0, 1, 2, 3, 0xFFF1, 0xFFF2, 77, 6]
    ys = [sym("", bind=0, type=0, shndx=0)] + [sym(f"f{i}", value=i, shndx=where[k]) for i, k in enumerate(seq)]
    tabs, offs = symtabs(cls, e, ys, index=4)
    secs = [sec(".text", flags=6), sec(".data", flags=3), sec(".rodata", flags=2, addr=0x100), *tabs]
    return run(cls, e, secs, offs_of(ys, offs))


def do_symtables(cls, e, a, b, order):
    """.symtab and .dynsym with their own string tables, in any order."""
    ya = [sym("", bind=0, type=0, shndx=0)] + [sym(f"a{i}", value=i, shndx=1) for i in range(a)]
    yb = [sym("", bind=0, type=0, shndx=0)] + [sym(f"dyn_{i}", value=100 + i, shndx=1, bind=2) for i in range(b)]
    ta, oa = symtabs(cls, e, ya, index=2)
    tb, ob = symtabs(cls, e, yb, ".dynstr", ".dynsym", index=4, type=11)
    offs_of(ya, oa)
    offs_of(yb, ob)
    secs = [sec(".text", flags=6), *ta, *tb]
    if order & 1:  # string tables behind the symbol tables
        secs = [secs[0], secs[2], secs[1], secs[4], secs[3]]
        secs[1]["link"], secs[3]["link"] = 3 - 1 + 0, 4
        secs[1]["link"] = 2
    if order & 2:
        secs = [secs[0], secs[3], secs[4], secs[1], secs[2]]
        for s in secs:
            if s["type"] in (2, 11):
                s["link"] += 2 if s["link"] == 2 else -2
    for s in secs:
        if s["type"] in (2, 11):
            want = ".strtab" if s["type"] == 2 else ".dynstr"
            s["link"] = 1 + [x["name"] for x in secs].index(want)
    return run(cls, e, secs, ya + yb)


def do_tables(cls, e, what, n, k):
    if what.startswith("no section"):
        secs = [sec(f".s{i}", addr=0x1000 * i, data=pattern(3 * i + 1, i)) for i in range(n)]
        blob, meta = elfgen.build(cls, e, secs, segments=[seg()] * k)
        order = "little" if e == 1 else "big"
        blob = bytearray(blob)
        end = 52 if cls == 1 else 64
        blob[end - 2 : end] = bytes(2)
        meta["shstrndx"] = 0
        if what == "no section sections":
            blob[end - 6 : end - 2] = bytes(4)
            at, size = (32, 4) if cls == 1 else (40, 8)
            blob[at : at + size] = bytes(size)
            meta.update(shnum=0, shentsize=0, shoff=0, sections=[])
        else:
            for i, s in enumerate(meta["sections"]):
                at = meta["shoff"] + i * meta["shentsize"]
                check_eq(int.from_bytes(blob[at : at + 4], order), s["sh_name"], "name of the generated header")
                blob[at : at + 4] = bytes(4)
                s.update(name="", sh_name=0)
        return verify_both(bytes(blob), meta, [])
    ys = [sym("", bind=0, type=0, shndx=0), sym("", value=5, shndx=1), sym("", value=7, shndx=2)]
    tabs, offs = symtabs(cls, e, [] if what in ("empty symbols", "empty both") else ys, index=2 + k, type=n)
    if what in ("empty symbols", "empty both"):
        ys = []
    if what in ("empty names", "empty both"):
        tabs[0]["data"] = b""
    elif what == "no names":
        tabs[1]["link"] = 0
    elif what == "tail":  # the last byte of the string table
        offs = {"": len(tabs[0]["data"]) - 1}
        tabs[1]["data"] = elfgen.symtab(cls, e, ys, offs)
    return run(cls, e, [sec(".text", flags=6), *(tabs[::-1] if k else tabs), sec(".data", flags=3)], offs_of(ys, offs))


def do_layout(cls, e, n, pad, flags):
    secs = [sec(f".s{i}", addr=0x1000 * i, data=pattern(i * 3 + 1, i) if i % 3 != 2 else None, type=1 if i % 3 != 2 else 8, size=0 if i % 3 != 2 else 0x100) for i in range(n)]
    return run(cls, e, secs, [], segments=[seg()] * (flags >> 2), shstr_first=bool(flags & 1), sht_before=bool(flags & 2), pad=pad)


def do_names(seq, share):
    ys = [sym(n.strip(".") or "x", value=i, shndx=1 + i) for i, n in enumerate(seq)]
    n = len(seq)
    tabs, offs = symtabs(1, 1, ys, index=n + 1, share=share)
    return run(1, 1, [sec(x, addr=i * 16) for i, x in enumerate(seq)] + tabs, offs_of(ys, offs), share=share)


def do_contents(cls, e, n):
    data = pattern(n, n)
    return run(cls, e, [sec(".a", data=data), sec(".b", data=data[::-1]), sec(".z", data=bytes(n)), sec(".f", data=b"\xff" * n)], [])


def do_large(what, p):
    return globals()["large_" + what](*(p if isinstance(p, list) else [p]))


def large_sections(n, order):
    """A symbol in every section, ascending, descending and with a stride."""
    secs = [sec(f".s{i}", addr=i * 8, data=pattern(i % 7 + 1, i), flags=i % 8) for i in range(1, n + 1)]
    idx = [*range(1, n + 1)]
    idx = [idx, idx[::-1], [1 + (i * 7 + i // n) % n for i in range(2 * n)]][order]
    ys = [sym(f"y{k}", value=k, shndx=i) for k, i in enumerate(idx)]
    tabs, offs = symtabs(1 + n % 2, 1 + order % 2, ys, index=n + 1)
    return run(1 + n % 2, 1 + order % 2, secs + tabs, offs_of(ys, offs))


def large_segments(n):
    return run(1 + n % 2, 1 + n // 2 % 2, [sec(".text")], [], segments=[seg(vaddr=i * 3, offset=i, filesz=n - i, type=i % 5) for i in range(n)])


def large_symbols(n):
    ys = [sym("", bind=0, type=0, shndx=0)] + [sym(f"y{k % (n // 2)}", value=k * 5, shndx=k % 4, size=n - k, bind=k % 3, type=k % 4) for k in range(n)]
    tabs, offs = symtabs(1 + n % 2, 1 + n // 2 % 2, ys, index=3)
    return run(1 + n % 2, 1 + n // 2 % 2, [sec(".text", flags=6), sec(".data", flags=3), *tabs], offs_of(ys, offs))


def large_tables(n):
    """Many symbol tables, each with a string table of its own."""
    secs, all_ = [sec(".text", flags=6)], []
    for k in range(n):
        ys = [sym("", bind=0, type=0, shndx=0)] + [sym(f"{'x' * k}t{k}_{i}", value=i, shndx=i % 3) for i in range(3)]
        tabs, offs = symtabs(2, 1, ys, f".str{k}", f".sym{k}", index=2 + 2 * k, type=2 if k % 2 == 0 else 11)
        all_ += offs_of(ys, offs)
        secs += tabs
    return run(2, 1, secs, all_)


def large_name(n, what):
    text = {"ascii": "abcdefg_", "wide": "a\u20acb\U0001f600", "suffix": "xy"}[what]
    name = (text * (n // len(text) + 1))[:n]
    ys = [sym(x, value=i, shndx=1) for i, x in enumerate([name, name[:-1], name + "z", name[1:], "short"])]
    tabs, offs = symtabs(1 + n % 2, 1, ys, index=4, share=what == "suffix")
    return run(1 + n % 2, 1, [sec(name), sec("." + name, flags=6), sec(name[1:]), *tabs], offs_of(ys, offs), share=what == "suffix")


def large_content(n):
    return run(2, 2, [sec(".a", data=pattern(n, 1)), sec(".b", data=pattern(n - 1, 2)), sec(".c")], [], segments=[seg()])


def do_truncated(cls, e, part):
    """A file which ends early is refused, or everything shown is what the complete file has."""
    ys = [sym("one", value=1), sym("two", value=2)]
    tabs, offs = symtabs(cls, e, ys, index=2)
    blob, meta = elfgen.build(cls, e, [sec(".text", flags=6), *tabs], segments=[seg()])
    n = 0
    for cut in range(1 + part, len(blob), 16):
        try:
            with elfs.parsed(blob[:cut]) as ep:
                pass
        except Exception:
            n += 1
        else:
            raise core.Violation(f"file cut at {cut} of {len(blob)} bytes is accepted")
    return n


def do_bad(cls, e, x):
    ys = [sym("one", value=1)]
    tabs, offs = symtabs(cls, e, ys, index=2)
    blob, meta = elfgen.build(cls, e, [sec(".text", flags=6), *tabs])
    b = bytearray(blob)
    if x < 4:
        b[x] ^= 0x20
    elif x < 10:
        b[5] = (0, 3, 4, 0x80, 0xFF, 0x10)[x - 4]
    else:
        b = bytearray(b"" if x == 10 else b"not an ELF file, but long enough to contain a complete header of one" * 3)
    with elfs.scratch() as d:
        path = d + "/a.elf"
        elfs.write(path, bytes(b))

        def attempt():
            with elfs.opened(path):
                pass

        expect_raises((Exception,), attempt, _what=f"invalid file {x}")
        expect_raises((Exception,), attempt, _what=f"invalid file {x} again")
        elfs.write(path, blob)
        with elfs.opened(path) as ep:
            verify(ep, meta, offs_of(ys, offs))
    return x
