"""E03: lookups of ELF sections and symbols select and order exactly what the file holds."""

import itertools
import re
from collections import OrderedDict

from mc import core, elfgen, elfs
from mc.checks.e01 import SPECIAL, offs_of, sec, sym, symtabs
from mc.core import check, check_eq, pattern

ID = "E03"
LEVEL = "exploration"
RULE = (
    "Tables with every combination of section, binding, type and name; all combinations of the filter arguments over alphabets which contain every "
    "accepted letter, several of them, both separators, both cases and unknown ones, both orders; every flag, visibility and binding value for the "
    "derived properties, read from the objects and used as query filters; all value orders of 4 symbols and sections up to 2^64; 23 names which differ in case, wildcards, digits or blanks only; 300 (2000) sections and long lists of them; freshly imported and "
    "from the data base. The oracle filters the generated tables."
)
ASSUMPTIONS = [
    "several access letters: the result lies between 'all of them' and 'any of them'",
    "the order of entries with equal keys is open",
    "sizes of sections are below 2^63",
]

SECTIONS = [(".text", 6), (".data", 3), (".rodata", 2), (".debug_x", 0), (".all", 7), (".other", 0xF0)]
WHERE = [1, 2, 3, 4, 5, 6, 0, 0xFFF1, 0xFFF2]
BINDS = {"l": 0, "g": 1, "w": 2}
TYPES = {"notype": 0, "object": 1, "func": 2, "section": 3, "file": 4, "common": 5, "tls": 6}
LETTERS = {"a": 2, "w": 1, "x": 4}

BINDINGS = [None, "", "g", "l", "w", "g l", "l,w", "G", "W,g", "g,,l", " w ", "g, l w", "q", "q,l"]
TYPESTRS = [None, "", *TYPES, "func object", "func,tls", "FUNC", "Object, File", "func,,object ", "nothing", "nothing func", "gnu_ifunc"]
ACCESS = [None, "", "a", "w", "x", "A", "X", "a w", "w,x", "a,w,x", "W x"]
SECTSTRS = [None, "", ".text", ".data,.text", ".text .rodata", "SHN_ABS", "SHN_UNDEF, .all", ".tex", ".Text", ".text,", "nope"]
PATTERNS = [None, "", "f", "fo", "foo$", ".*o", "^b", "_.*", "[fb]..$", "f|b", "(?i)FOO", "FOO", "", "x", r"\w+", "\xe9", "o"]
NAMES = ["foo", "fo", "bar", "_foo", "", "FOO", "\xe9t\xe9", "foo.b"]


def spaces(tier):
    quick = tier == "quick"

    def filters():
        for b in range(len(BINDINGS)):
            for t in range(len(TYPESTRS)):
                yield [b, t]

    def named():
        for s in range(len(SECTSTRS)):
            for p in range(len(PATTERNS)):
                yield [s, p]

    def get():
        for n in (1, 2, 3):
            for seq in itertools.product(range(4), repeat=n):
                yield [list(seq)]

    def sections():
        pool = [".text", ".data", ".debug_info", ".debug", ".text"]
        for n in range(0, 4 if quick else 6):
            for seq in itertools.permutations(range(5), n):
                yield [[pool[i] for i in seq]]

    def orders():
        for cls in (1, 2):
            top = 1 << 32 * cls
            vals = [0, 1, (top >> 1) - 1, top >> 1, top - 1, 0x1000]
            for seq in itertools.product(range(len(vals)), repeat=3 if quick else 4):
                yield [cls, [vals[i] for i in seq]]

    def flags():
        for bit in range(32):
            yield [1, bit]
        for bit in range(64):
            yield [2, bit]

    def contents():
        for t in [*range(0, 20), 0x60000000, 0x70000001, 0x70000003, 0xFFFFFFFF]:
            if t not in (2, 7, 11):
                yield [t]

    def others():
        for cls, e in ((1, 1), (1, 2), (2, 1), (2, 2)):
            for hi in range(64):
                yield [cls, e, hi]

    def binds():
        for b in range(16):
            for k in range(len(WHERE)):
                yield [b, k]

    def special():
        for n in (1, 2, 3):
            for seq in itertools.product(range(6), repeat=n):
                yield [list(seq)]

    def alike():
        """Names which are equal but for case, a wildcard of SQL or regular expressions, white space, a prefix, the form of a digit or letter."""
        for n in range(1, 3 if quick else 4):
            for seq in itertools.permutations(range(len(ALIKE)), n):
                yield [list(seq)]
        for k in range(len(ALIKE)):  # all of them, rotated
            yield [[(i * 5 + k) % len(ALIKE) for i in range(len(ALIKE))]]

    def large():
        for n in (16, 17, 33, 64, 65, 100, 129, 257, 300, 520, *(() if quick else (1040, 2000))):
            yield [n]

    def nameless():
        """Sections without a name, and their symbols, next to lists of names with surplus separators."""
        for n in (1, 2, 3):
            for seq in itertools.product(("", ".a", ".b"), repeat=n):
                yield [list(seq)]

    return {"nameless": nameless, "alike": alike, "large": large, "filters": filters, "named": named, "get": get, "sections": sections, "orders": orders, "flags": flags, "contents": contents,
            "others": others, "binds": binds, "special": special}


def run_case(kind, p):
    return globals()["do_" + kind](*p)


# ---------------------------------------------------------------------------------------------------------


def table(ys, e=1, cls=1):
    n = len(SECTIONS)
    tabs, offs = symtabs(cls, e, ys, index=n + 1)
    offs_of(ys, offs)
    for y in ys:
        x = y["shndx"]
        y["section"] = SPECIAL[x] if x in SPECIAL else SECTIONS[x - 1][0]
        y["access"] = 0 if x in SPECIAL else SECTIONS[x - 1][1]
    secs = [sec(name, flags=f, addr=0x100 * i) for i, (name, f) in enumerate(SECTIONS)]
    return elfgen.build(cls, e, secs + tabs)[0], ys


def words(s):
    return [w for w in s.replace(",", " ").split(" ") if w]


def select(ys, sections=None, name_pattern=None, bindings=None, access=None, types_str=None, any_access=False):
    out = []
    for y in ys:
        if sections and y["section"] not in words(sections):
            continue
        if bindings and y["bind"] not in [BINDS.get(w.lower()) for w in words(bindings)]:
            continue
        if types_str and y["type"] not in [TYPES.get(w.lower()) for w in words(types_str)]:
            continue
        if access:
            bits = [y["access"] & LETTERS[w.lower()] for w in words(access)]
            if not (any(bits) if any_access else all(bits)):
                continue
        if name_pattern and not re.match(name_pattern, y["name"]):
            continue
        out.append(y)
    return out


def key_of(y):
    return (y["name"], y["section"], y["value"], y["size"], y["bind"], y["type"], y["other"], y["shndx"])


def row(r):
    return (r.symbol_name, r.section_name, r.st_value, r.st_size, r.st_bind, r.st_type, r.st_other, r.st_shndx)


def fetch(ep, ys, how, order_by_value, **args):
    args = {k: v for k, v in args.items() if v is not None}
    what = f"{how}: fetch({args}, order_by_value={order_by_value})"
    res = ep.symbols.fetch(order_by_value=order_by_value, **args)
    check(isinstance(res, OrderedDict), "%s: returned %r", what, type(res))
    names = list(res)
    check_eq(names, sorted(names), f"{what}: order of sections")
    got = []
    for name, group in res.items():
        check(len(group) > 0, "%s: empty group %r", what, name)
        rows = [row(r) for r in group]
        check(all(r[1] == name for r in rows), "%s: foreign symbols in group %r", what, name)
        keys = [r[2] if order_by_value else r[0] for r in rows]
        check_eq(keys, sorted(keys), f"{what}: order of symbols in {name}")
        got += rows
    got.sort()
    want = sorted(map(key_of, select(ys, **args)))
    if len(words(args.get("access") or "")) > 1:
        upper = sorted(map(key_of, select(ys, any_access=True, **args)))
        check(set(want) <= set(got) <= set(upper) and len(set(got)) == len(got), "%s: got %s", what, core._short(got))
    else:
        check_eq(got, want, what)
    return len(got)


def population():
    ys, v = [], 0
    for shndx in WHERE:
        for bind in (0, 1, 2, 10):
            for type_ in (0, 1, 2, 3, 4, 5, 6, 10):
                v += 1
                ys.append(sym(f"s{v * 37 % 1000:03d}", value=v * 7919 % 10007, size=v % 9, bind=bind, type=type_, shndx=shndx))
    return ys


def do_filters(b, t):
    blob, ys = table(population(), 1 + b % 2, 1 + t % 2)
    n = 0
    with elfs.both(blob) as passes:
        for how, ep in passes():
            for access in ACCESS if how == "import" else ACCESS[:3]:
                for order in (True, False):
                    n += fetch(ep, ys, how, order, bindings=BINDINGS[b], types_str=TYPESTRS[t], access=access)
    return n


def do_named(s, p):
    ys = []
    for i, shndx in enumerate(WHERE):
        for j, name in enumerate(NAMES):
            ys.append(sym(name, value=(i * 31 + j * 17) % 64, size=i * 16 + j, bind=(i + j) % 3, type=j % 3, shndx=shndx))
    blob, ys = table(ys, 1 + s % 2, 1 + p % 2)
    n = 0
    with elfs.both(blob) as passes:
        for how, ep in passes():
            for order in (True, False):
                for rest in ({}, {"bindings": "g,w"}, {"types_str": "object"}, {"access": "a"}, {"bindings": "l", "types_str": "func", "access": "x"}):
                    n += fetch(ep, ys, how, order, sections=SECTSTRS[s], name_pattern=PATTERNS[p], **rest)
    return n


def do_get(seq):
    """Symbols with the same name in different sections."""
    ys = [sym(("one", "two")[k & 1], value=i + 1, shndx=(1, 0xFFF1)[k >> 1]) for i, k in enumerate(seq)]
    blob, ys = table(ys)
    with elfs.both(blob) as passes:
        for how, ep in passes():
            for name in ("one", "two", "", "On", "one ", "%", "ONE"):
                for section in (None, ".text", "SHN_ABS", ".data", ".TEXT", ""):
                    fit = [key_of(y) for y in ys if y["name"] == name and (not section or y["section"] == section)]
                    got = ep.symbols.get(name, section) if section is not None else ep.symbols.get(name)
                    if not fit:
                        check_eq(got, None, f"{how}: get({name!r}, {section!r})")
                    else:
                        check(got is not None and row(got) in fit, "%s: get(%r, %r) returned %r", how, name, section, got)
    return tuple(seq)


ALIKE = [".text", ".Text", ".TEXT", ".tex_", ".tex%", ".text ", " .text", ".tex", ".text.", ".text.1", ".text.10", ".text.9", "_text", "text", ".text*",
         ".te\xd7t", ".t\xe9xt", ".t\xc9xt", ".te\u0301xt", "'", '"', "\\", ".text\n"]


def do_nameless(names):
    n = len(names)
    ys = [sym(f"s{i}", value=16 * (i + 1), shndx=1 + i) for i in range(n)]
    tabs, _ = symtabs(1, 1, ys, index=n + 1)
    blob, meta = elfgen.build(1, 1, [sec(x, addr=16 * (i + 1), data=pattern(i + 1, i)) for i, x in enumerate(names)] + tabs)
    with elfs.both(blob) as passes:
        for how, ep in passes():
            for listed in (".a", ".a,", ",.a", " .a ", ".a, .b", ".a,,.b", ".b  .a", ", .b"):
                wanted = {x for x in (".a", ".b") if x in listed}
                rows = {key: [y.symbol_name for y in part] for key, part in ep.symbols.fetch(sections=listed).items()}
                check_eq(rows, {x: [f"s{i}" for i in range(n) if names[i] == x] for x in sorted(wanted) if x in names}, f"{how}: symbols of {listed!r}")
                rows = [(r.index, r.section_name) for r in ep.sections.fetch(sections=listed)]
                check_eq(rows, [(i + 1, x) for i, x in enumerate(names) if x in wanted], f"{how}: sections {listed!r}")
    return tuple(names)


def do_alike(seq):
    names = [ALIKE[i] for i in seq]
    n = len(names)
    secs = [sec(x, addr=(i * 7 + 3) % 32 * 16, data=pattern(i + 1, i), flags=i % 8) for i, x in enumerate(names)]
    ys = [sym(y, value=(i * n + j) * 7 % 61, size=i * n + j, shndx=1 + i) for i in range(n) for j, y in enumerate(names)][:60]
    tabs, offs = symtabs(1, 1, ys, index=n + 1)
    for y in offs_of(ys, offs):
        y["section"], y["access"] = names[y["shndx"] - 1], (y["shndx"] - 1) % 8
    blob, meta = elfgen.build(1, 1, secs + tabs)
    rows = [(i, s["name"], s["addr"], s["flags"], s["data"] or None) for i, s in enumerate(meta["sections"])]
    with elfs.both(blob) as passes:
        for how, ep in passes():
            for order in (True, False):
                fetch(ep, ys, how, order)
                got = [srow(r) for r in ep.sections.fetch(order_by_address=order)]
                check_eq(sorted(got), rows, f"{how}: sections")
                keys = [r[2 if order else 1] for r in got]
                check_eq(keys, sorted(keys), f"{how}: order of sections, by address: {order}")
            for x in ALIKE:
                got = ep.sections.get(x)
                check_eq(got and srow(got), ([r for r in rows if r[1] == x] or [None])[0], f"{how}: sections.get({x!r})")
                if x.strip() == x:
                    fetch(ep, ys, how, True, sections=x)
                    check_eq([srow(r) for r in ep.sections.fetch(sections=x)], [r for r in rows if r[1] == x], f"{how}: sections.fetch({x!r})")
                pat = re.escape(x)
                fetch(ep, ys, how, False, name_pattern=pat)
                check_eq(sorted(srow(r) for r in ep.sections.fetch(name_pattern=pat)), [r for r in rows if re.match(pat, r[1])], f"{how}: sections.fetch(name_pattern={pat!r})")
                for section in (None, *names[:3], ALIKE[(len(x) * 3) % len(ALIKE)]):
                    fit = [key_of(y) for y in ys if y["name"] == x and (not section or y["section"] == section)]
                    got = ep.symbols.get(x, section) if section is not None else ep.symbols.get(x)
                    check(got is None if not fit else got is not None and row(got) in fit, "%s: symbols.get(%r, %r) returned %r", how, x, section, got)
    return tuple(names)


def do_large(n):
    """Many sections, long lists of them, many symbols."""
    secs = [sec(f".s{i}", addr=(i * 7919) % 65536, data=pattern(i % 5 + 1, i), flags=i % 8) for i in range(n)]
    ys = [sym(f"y{i * 31 % n}", value=(i * 7919) % 10007, size=i, shndx=1 + i * 17 % n, bind=i % 3, type=i % 4) for i in range(2 * n)]
    tabs, offs = symtabs(2, 1, ys, index=n + 1)
    for y in offs_of(ys, offs):
        y["section"], y["access"] = f".s{y['shndx'] - 1}", (y["shndx"] - 1) % 8
    blob, meta = elfgen.build(2, 1, secs + tabs)
    rows = [(i, s["name"], s["addr"], s["flags"], s["data"] or None) for i, s in enumerate(meta["sections"])]
    with elfs.both(blob) as passes:
        for how, ep in passes():
            for order in (True, False):
                for some in (None, range(n), range(0, n, 2), range(n - 1, -1, -3), range(n - 1)):
                    listed = None if some is None else (", ", " ", ",")[len(some) % 3].join(f".s{i}" for i in some)
                    for pat in (None, r"\.s", r"\.s.*[02468]$"):
                        got = [srow(r) for r in ep.sections.fetch(order_by_address=order, **{k: v for k, v in (("sections", listed), ("name_pattern", pat)) if v})]
                        want = [r for r in rows if (some is None or r[1] in {f".s{i}" for i in some}) and (not pat or re.match(pat, r[1]))]
                        check_eq(sorted(got), want, f"{how}: sections.fetch of {some}, {pat}")
                        keys = [r[2 if order else 1] for r in got]
                        check_eq(keys, sorted(keys), f"{how}: order of sections")
                    fetch(ep, ys, how, order, sections=listed)
                    fetch(ep, ys, how, order, sections=listed, name_pattern="y.*[05]$", bindings="g,w")
            for i in range(n):
                check_eq(srow(ep.sections.get(f".s{i}")), rows[i + 1], f"{how}: sections.get")
                fit = [key_of(y) for y in ys if y["name"] == f"y{i}"]
                got = ep.symbols.get(f"y{i}")
                check(got is not None and row(got) in fit, "%s: symbols.get(y%d) returned %r", how, i, got)
                check(fit and row(ep.symbols.get(f"y{i}", fit[-1][1])) in [k for k in fit if k[1] == fit[-1][1]], "%s: symbols.get(y%d, section)", how, i)
    return n


def srow(r):
    return (r.index, r.section_name, r.sh_addr, r.sh_flags, r.section_image)


def do_sections(names):
    secs = [sec(n, addr=(0x100, 0x40, 0x300, 0x20, 0x200, 0)[i], flags=(2, 0, 6, 3, 0, 2)[i], data=pattern(i + 1, i)) for i, n in enumerate(names)]
    blob, meta = elfgen.build(1 + len(names) % 2, 1, secs)
    rows = [(i, s["name"], s["addr"], s["flags"], s["data"] if s["data"] else None) for i, s in enumerate(meta["sections"])]
    with elfs.both(blob) as passes:
        for how, ep in passes():
            for n in {*names, "", ".shstrtab", ".tex", ".TEXT", ".debug%"}:
                got = ep.sections.get(n)
                fit = [r for r in rows if r[1] == n]
                check(srow(got) in fit if fit else got is None, "%s: get(%r) returned %r", how, n, got)
            for sections in (None, "", ".text", ".text,.data", ".debug .shstrtab", "nope"):
                for pat in (None, "", r"\.debug", ".text", "debug", r".*t", ".*t$", "$", "(?i).TEXT"):
                    for order in (True, False):
                        args = {k: v for k, v in (("sections", sections), ("name_pattern", pat)) if v is not None}
                        got = [srow(r) for r in ep.sections.fetch(order_by_address=order, **args)]
                        want = [r for r in rows if (not sections or r[1] in words(sections)) and (not pat or re.match(pat, r[1]))]
                        what = f"{how}: sections.fetch({args}, {order})"
                        check_eq(sorted(got, key=lambda r: r[0]), want, what)
                        keys = [r[2] if order else r[1] for r in got]
                        check_eq(keys, sorted(keys), f"{what}: order")
            dbg = ep.debug_sections()
            check_eq(list(dbg), sorted({r[1] for r in rows if r[1].startswith(".debug")}, key=lambda n: [r[2] for r in rows if r[1] == n]), f"{how}: debug sections")
            for n, d in dbg.items():
                check_eq((d.section.section_name, d.image), (n, [r[4] for r in rows if r[1] == n][-1]), f"{how}: debug section {n}")
    return tuple(names)


def do_orders(cls, values):
    """Values and addresses are unsigned."""
    ys = [sym(f"s{len(values) - i}", value=v, size=i, shndx=1 + 6 * (i % 2)) for i, v in enumerate(values)]
    for y in ys:
        if y["shndx"] == 7:
            y["shndx"] = 0xFFF1
    n = len(values)
    secs = [sec(".text", flags=6, addr=values[0])] + [sec(f".a{n - i}", addr=v) for i, v in enumerate(values)]
    tabs, offs = symtabs(cls, 1, ys, index=n + 2)
    offs_of(ys, offs)
    for y in ys:
        y["section"], y["access"] = (".text", 6) if y["shndx"] == 1 else ("SHN_ABS", 0)
    blob, meta = elfgen.build(cls, 1, secs + tabs)
    with elfs.both(blob) as passes:
        for how, ep in passes():
            for order in (True, False):
                fetch(ep, ys, how, order)
                got = [(r.sh_addr, r.section_name) for r in ep.sections.fetch(order_by_address=order)]
                keys = [g[0 if order else 1] for g in got]
                check_eq(keys, sorted(keys), f"{how}: order of sections")
                check_eq(sorted(got), sorted((s["addr"], s["name"]) for s in meta["sections"]), f"{how}: sections")
            got = [r.symbol_name for r in ep.symbols.fetch_gcc_special_symbols()]
            check_eq(got, [], f"{how}: special symbols")
    return tuple(values)


FLAGS = dict(flag_writeable=0, flag_alloc=1, flag_executable=2, flag_merge=4, flag_strings=5, flag_info_link=6, flag_link_order=7,
             flag_os_nonconforming=8, flag_group=9, flag_tls=10, flag_ordered=30, flag_exclude=31)
ACCESSES = dict(writeable=0, allocate=1, executeable=2)


def do_flags(cls, bit):
    """Derived properties of sections and symbols for a single flag, all others, and its combination with the neighbour."""
    from objutils.elf import model

    full = (1 << 32 * cls) - 1
    values = [1 << bit, full ^ (1 << bit), full, 0, (3 << bit) & full]
    secs = [sec(f".f{i}", flags=v, addr=i) for i, v in enumerate(values)]
    ys = [sym(f"y{i}", value=i, shndx=1 + i) for i in range(len(values))]
    tabs, offs = symtabs(cls, 1, ys, index=len(values) + 1)
    blob, meta = elfgen.build(cls, 1, secs + tabs)
    S, Y = model.Elf_Section, model.Elf_Symbol
    with elfs.both(blob) as passes:
        for how, ep in passes():
            rows = {r.section_name: r for r in ep.sections.fetch()}
            for prop, b in FLAGS.items():
                want = [f".f{i}" for i, v in enumerate(values) if v >> b & 1]
                check_eq([n for n in sorted(rows) if n.startswith(".f") and getattr(rows[n], prop) is True], want, f"{how}: {prop}")
                check_eq([n for n in sorted(rows) if n.startswith(".f") and getattr(rows[n], prop) is False], [f".f{i}" for i in range(5) if f".f{i}" not in want], f"{how}: not {prop}")
                got = sorted(r.section_name for r in ep.query(S).filter(getattr(S, prop)) if r.section_name.startswith(".f"))
                check_eq(got, want, f"{how}: query for {prop}")
            for mask in (0, 1 << bit, 3 << bit & full, full, full ^ 1 << bit, 7, 5):
                want = sorted(f".f{i}" for i, v in enumerate(values) if v & mask == mask)
                check_eq(sorted(n for n, r in rows.items() if n.startswith(".f") and r.test_flags(mask)), want, f"{how}: test_flags({mask:#x})")
                got = sorted(r.section_name for r in ep.query(S).filter(S.test_flags(mask)) if r.section_name.startswith(".f"))
                check_eq(got, want, f"{how}: query for test_flags({mask:#x})")
            check_eq([rows[f".f{i}"].get_flags() for i in range(5)], values, f"{how}: get_flags")
            syms = [y for g in ep.symbols.fetch().values() for y in g]
            for mask in range(8):
                want = sorted(f"y{i}" for i, v in enumerate(values) if v & mask == mask)
                check_eq(sorted(y.symbol_name for y in syms if y.test_access(mask)), want, f"{how}: test_access({mask})")
                check_eq(sorted(y.symbol_name for y in ep.query(Y).filter(Y.test_access(mask))), want, f"{how}: query for test_access({mask})")
            for prop, b in ACCESSES.items():
                want = [f"y{i}" for i, v in enumerate(values) if v >> b & 1]
                check_eq(sorted(y.symbol_name for y in syms if getattr(y, prop)), want, f"{how}: {prop}")
                check_eq(sorted(y.symbol_name for y in ep.query(Y).filter(getattr(Y, prop))), want, f"{how}: query for {prop}")
    return (cls, bit)


def do_contents(t):
    from objutils.elf import defs, model

    S = model.Elf_Section
    names = [".debug_a", ".dwo_b", "debug", ".text", ".debug", ".DEBUG_c", ".Dwo", ".debu", "x.debug"]
    data = b"\0abc\0" if t == 3 else pattern(5, 5)
    secs = [sec(n, type=t, flags=2, data=data if i % 2 == 0 else b"", size=0) for i, n in enumerate(names)] + [sec(".big", type=t, data=None, size=0x7FFFFFF0) if t in (0, 8) else sec(".z")]
    blob, meta = elfgen.build(2, 1, secs)
    with elfs.both(blob) as passes:
        for how, ep in passes():
            rows = {r.section_name: r for r in ep.sections.fetch()}
            real = meta["sections"]
            for prop, f in (("is_debug", lambda s: s["name"].startswith(".debug")), ("is_dwo", lambda s: s["name"].startswith(".dwo")),
                            ("has_content", lambda s: s["type"] not in (0, 8) and s["size"] > 0)):
                want = sorted(s["name"] for s in real if f(s))
                check_eq(sorted(n for n, r in rows.items() if getattr(r, prop)), want, f"{how}: {prop}")
                check_eq(sorted(r.section_name for r in ep.query(S).filter(getattr(S, prop))), want, f"{how}: query for {prop}")
            if t in defs.SectionType._value2member_map_:
                check_eq(int(rows[".debug_a"].section_type), t, f"{how}: type")
    return t


def do_others(cls, e, hi):
    """Visibility is in the lower two bits of st_other."""
    from objutils.elf import model

    Y = model.Elf_Symbol
    ys = [sym(f"v{k}", value=k, other=hi << 2 | k) for k in range(4)]
    blob, ys = table(ys, e, cls)
    with elfs.both(blob) as passes:
        for how, ep in passes():
            rows = [y for g in ep.symbols.fetch().values() for y in g]
            check_eq(sorted(y.symbol_name for y in rows if y.hidden), ["v1", "v2"], f"{how}: hidden")
            check_eq(sorted(y.symbol_name for y in ep.query(Y).filter(Y.hidden)), ["v1", "v2"], f"{how}: query for hidden")
            check_eq(sorted(y.st_other for y in rows), [y["other"] for y in ys], f"{how}: st_other")
    return hi


def do_binds(b, k):
    from objutils.elf import defs, model

    Y = model.Elf_Symbol
    ys = [sym(f"n{i}", value=i, bind=b if i % 2 else (b + 1) % 16, type=i, shndx=WHERE[k] if i % 3 else 1) for i in range(16)]
    blob, ys = table(ys, 1 + b % 2, 1 + k % 2)
    with elfs.both(blob) as passes:
        for how, ep in passes():
            rows = [y for g in ep.symbols.fetch().values() for y in g]
            for prop, f in (("local", lambda y: y["bind"] == 0), ("global_", lambda y: y["bind"] == 1), ("weak", lambda y: y["bind"] == 2),
                            ("undefined", lambda y: y["shndx"] == 0), ("absolute", lambda y: y["shndx"] == 0xFFF1)):
                want = sorted(y["name"] for y in ys if f(y))
                check_eq(sorted(y.symbol_name for y in rows if getattr(y, prop)), want, f"{how}: {prop}")
                check_eq(sorted(y.symbol_name for y in ep.query(Y).filter(getattr(Y, prop))), want, f"{how}: query for {prop}")
            for y in rows:
                if y.st_bind in defs.SymbolBinding._value2member_map_:
                    check_eq(int(y.symbol_bind), y.st_bind, f"{how}: symbol_bind")
                if y.st_type in defs.SymbolType._value2member_map_:
                    check_eq(int(y.symbol_type), y.st_type, f"{how}: symbol_type")
    return (b, k)


def do_special(seq):
    """GCC's special symbols: absolute, without type, name starts with an underscore."""
    kinds = [("_a", 0xFFF1, 0), ("__b", 0xFFF1, 0), ("c_", 0xFFF1, 0), ("_d", 1, 0), ("_e", 0xFFF1, 2), ("", 0xFFF1, 0)]
    top = 1 << 64
    ys = []
    for i, k in enumerate(seq):
        n, x, t = kinds[k]
        ys.append(sym(n + (str(i) if n else ""), value=(top - 1, 5, 1 << 63)[i], shndx=x, type=t, bind=i))
    blob, ys = table(ys, 1, 2)
    with elfs.both(blob) as passes:
        for how, ep in passes():
            got = [(r.st_value, r.symbol_name) for r in ep.symbols.fetch_gcc_special_symbols()]
            want = sorted((y["value"], y["name"]) for y in ys if y["shndx"] == 0xFFF1 and y["type"] == 0 and y["name"].startswith("_"))
            check_eq(got, want, f"{how}: special symbols")
    return tuple(seq)
