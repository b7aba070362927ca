"""S01: the command line tools report and extract exactly what the file contains."""

import importlib
import itertools
import os
import re
import subprocess
import sys
import tempfile

from mc import core, elfgen, elfs, images
from mc.checks import e02, e03, e05, h01
from mc.checks.c03 import STYLES
from mc.checks.e01 import sec, seg, sym, symtabs
from mc.core import check, check_eq, pattern
from mc.refarm import TAGS
from mc.refcodec import CODECS
from mc.refmem import cells_of, normalize

ID = "S01"
LEVEL = "exploration"
RULE = (
    "Each tool is run on every file of an enumeration: oj_hex_info on documents of all 13 formats (layouts, lengths, addresses, up to 1100 sections), "
    "oj_elf_extract over section sequences x address orders x patterns x output formats x joining, oj_elf_syms over all pairs of its filters, oj_elf_info over "
    "header fields, sections, segments, comments, notes and the tables of debugging information, oj_elf_arm_attrs over attributes and machines; on a fresh and on an imported file; "
    "and all sequences of 3 runs in one process. The output is parsed and compared with the generated file."
)
ASSUMPTIONS = [
    "names of sections and symbols are printable ASCII without blanks; types, bindings and ABIs unknown to the library are shown as numbers",
    "only the printed values, their order and the exit code count, not the layout of the lines",
]
CASE_TIMEOUT = 120

CLS = [(c, e) for c in (1, 2) for e in (1, 2)]
SHT = {0: "NULL", 1: "PROGBITS", 2: "SYMTAB", 3: "STRTAB", 4: "RELA", 5: "HASH", 6: "DYNAMIC", 7: "NOTE", 8: "NOBITS", 9: "REL", 10: "SHLIB", 11: "DYNSYM", 14: "INIT_ARRAY",
       15: "FINI_ARRAY", 16: "PREINIT_ARRAY", 17: "GROUP", 18: "SYMTAB_SHNDX", 0x6FFFFFF5: "GNU_ATTRIBUTES", 0x6FFFFFF6: "GNU_HASH", 0x6FFFFFF7: "GNU_LIBLIST"}
PT = {0: "NULL", 1: "LOAD", 2: "DYNAMIC", 3: "INTERP", 4: "NOTE", 5: "SHLIB", 6: "PHDR", 7: "TLS", 0x6474E550: "GNU_EH_FRAME", 0x6474E551: "GNU_STACK", 0x6474E552: "GNU_RELRO",
      0x6474E553: "GNU_PROPERTY", 0x70000001: "ARM_EXIDX"}
STT = {0: "NOTYPE", 1: "OBJECT", 2: "FUNC", 3: "SECTION", 4: "FILE", 5: "COMMON", 6: "TLS", 10: "GNU_IFUNC", 13: "LOPROC", 15: "HIPROC"}
STB = {0: "LOCAL", 1: "GLOBAL", 2: "WEAK", 10: "GNU_UNIQUE", 13: "LOPROC", 15: "HIPROC"}
ET = {0: "NONE", 1: "REL", 2: "EXEC", 3: "DYN", 4: "CORE", 0xFE00: "LOOS", 0xFEFF: "HIOS", 0xFF00: "LOPROC", 0xFFFF: "HIPROC"}
OSABI = {0: "NONE", 1: "HPUX", 2: "NETBSD", 6: "SOLARIS", 7: "AIX", 8: "IRIX", 9: "FREEBSD", 12: "OPENBSD", 64: "C6000_ELFABI", 97: "ARM", 255: "STANDALONE"}
# Values which have no name, as they are in the files of some compilers
OTHER = {"type": (12, 0x6FFF4C03, 0x7000001E, 0x70000010, 0x7FFFFFFE, 0x80000001, 0xFFFFFFFE), "ptype": (9, 0x65A3DBE6, 0x70000002, 0x6FFFFFFE, 0x80000000, 0xFFFFFFFF),
         "stt": (7, 11, 12, 14), "stb": (3, 4, 5, 6, 7, 8, 9, 11, 12, 14), "etype": (6, 0x100, 0xFDFF, 0xFE01, 0xFF01, 0xFFFE), "osabi": (17, 18, 63, 66, 96, 98, 102, 254)}
EM = {3: "386", 8: "MIPS", 20: "PPC", 40: "ARM", 53: "68HC12", 62: "X86_64", 83: "AVR", 183: "AARCH64"}
OUTPUTS = ["ihex", "shf", "srec", "titxt"]


def spaces(tier):
    quick = tier == "quick"

    def hexinfo():
        for name in CODECS:
            top = images.top_of(name)
            for dump in (0, 1):
                for a in images.addresses(name):
                    for n in (1, 15, 16, 17, 40):
                        if a + n <= top:
                            yield [name, dump, [[a, n, 1]]]
                A = sorted(images.addresses(name))
                for a, b in itertools.permutations(A if not quick else A[::3], 2):
                    if abs(a - b) >= 20 and max(a, b) + 17 <= top:
                        yield [name, dump, [[a, 17, 1], [b, 5, 2]]]
                for k in (3, 4):
                    for gaps in itertools.product((0, 1, 16), repeat=k - 1):
                        out, at = [], 0x200
                        for i in range(k):
                            out.append([at, 3 + i, i])
                            at += 3 + i + (*gaps, 0)[i]
                        yield [name, dump, out]
                for n in (10, 11, 99, 100, 101, 257, 999, 1000, 1001, 1100):
                    yield [name, dump, [[3 * i, 1 + i % 2, i] for i in range(n)]]
                for n in (255, 256, 257, 4096, 9999, 10000, 65535, 65536):
                    if n <= top - 1:
                        yield [name, dump, [[0 if n < 65000 or top <= 1 << 16 else 0xFFF8, n, 1]]]

    def extract():
        for n in range(0, 4 if quick else 5):
            for i, seq in enumerate(itertools.product(e02.KINDS, repeat=n)):
                yield [list(seq), OUTPUTS[i % 4]]

    def orders():
        for perm in itertools.permutations(range(4)):
            for gaps in range(8):
                for i, out in enumerate(OUTPUTS):
                    for join in (0, 1):
                        if quick and (gaps + i + join) % 2:
                            continue
                        yield [list(perm), gaps, out, join]

    def patterns():
        for inc in range(len(e02.PATTERNS)):
            for exc in range(len(e02.PATTERNS)):
                yield [inc, exc]

    def sizes():
        for n in (*range(1, 40), 127, 128, 255, 256, 257, 4096, 65535, 65536, 70000):
            for out in OUTPUTS:
                yield [n, out]

    def syms():
        for f in range(len(FILTERS)):
            for g in range(f, len(FILTERS)):
                for order in range(3) if not quick else [(f + g) % 3]:
                    yield [f, g, order]

    def symrows():
        for cls, e in CLS:
            for v in (0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, *(() if cls == 1 else (1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1))):
                for bind in (*STB, *OTHER["stb"]):
                    yield [cls, e, v, bind]

    def header():
        for cls, e in CLS:
            for f, table in (("etype", ET), ("machine", EM), ("osabi", OSABI)):
                for v in (*table, *OTHER.get(f, ())):
                    yield [cls, e, f, v]
            for v in (0, 1, 2, 127, 255):
                yield [cls, e, "abiversion", v]

    def sections():
        for cls, e in CLS:
            vals = [0, 1, 0x1234, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF] + ([] if cls == 1 else [1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1])
            for f in ("addr", "align", "type", "size"):
                for v in (*SHT, *OTHER["type"]) if f == "type" else vals[:3] if f == "size" else vals:
                    yield [cls, e, f, v]
            for n in (0, 1, 2, 9, 10, 11, 40, 100, 257):
                yield [cls, e, "count", n]
            for n in (1, 24, 25, 26, 40, 300):
                yield [cls, e, "name", n]

    def segments():
        for cls, e in CLS:
            vals = [0, 1, 0x1234, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF] + ([] if cls == 1 else [1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1])
            for f in ("offset", "vaddr", "paddr", "filesz", "memsz", "align"):
                for v in vals:
                    yield [cls, e, f, v]
            for f in range(8):
                yield [cls, e, "flags", f]
            for t in (*PT, *OTHER["ptype"]):
                yield [cls, e, "type", t]
            for n in (0, 1, 2, 3, 10, 40):
                yield [cls, e, "count", n]

    def texts():
        for cls, e in CLS:
            for k in range(8):
                for c in range(4):
                    yield [cls, e, k, c]

    def attributes():
        for t in sorted(TAGS):
            for e in (1, 2):
                yield [t, e]

    def machines():
        for m in range(0, 256):
            yield [m]

    def refused():
        for tool in TOOLS:
            for k in range(4):
                yield [tool, k]
        for name in ("ihex", "srec"):
            yield ["oj_hex_info", name]

    def dwarf():
        from mc.checks.w03 import trees

        for order in range(4):
            for cls, e in CLS:
                yield [cls, e, order, None]
        for n in range(1, 5 if quick else 7):
            for i, t in enumerate(trees(n)):
                yield [*CLS[i % 4], (n + i) % 4, t]

    def tables():
        for cls, e in CLS:
            for kind in ("aranges", "pubnames"):
                for u in range(4):
                    for counts in itertools.product(range(4), repeat=u):
                        if quick and u == 3 and sum(counts) % 2:
                            continue
                        for pad in (0, 1) if not quick or u == 1 else (sum(counts) % 2,):
                            yield [cls, e, kind, list(counts), pad]
            for version in (2, 3, 4, 5):
                for n in range(4):
                    yield [cls, e, "line", [version], n]
            for u in (1, 2):
                for n in range(4):
                    for seq in itertools.product((1, 2, 3, 4, 0xFF), repeat=n):
                        if quick and (n == 3 and sum(seq) % 3 or n == 2 and u == 2 and sum(seq) % 2):
                            continue
                        yield [cls, e, "macinfo", list(seq), u]
            for flags in range(0, 4):
                yield [cls, e, "macro", [4 + flags % 2], flags]
            for n in range(16):
                yield [cls, e, "all", [], n]
        for i, states in enumerate(itertools.product((0, 1, 2), repeat=5)):  # no such section, an empty one, one with content
            for cls, e in CLS if not quick else [CLS[i % 4]]:
                yield [cls, e, "partial", list(states), i % 2]

    def runs():
        for seq in itertools.product(range(7), repeat=3):
            yield [list(seq)]

    def entry():
        for k in range(7):
            yield [k]

    return {"entry": entry, "dwarf": dwarf, "tables": tables, "refused": refused, "runs": runs, "hexinfo": hexinfo, "extract": extract, "orders": orders, "patterns": patterns, "sizes": sizes,
            "syms": syms, "symrows": symrows, "header": header, "sections": sections, "segments": segments, "texts": texts, "attributes": attributes, "machines": machines}


TOOLS = ["oj_hex_info", "oj_elf_extract", "oj_elf_syms", "oj_elf_info", "oj_elf_arm_attrs"]


def run_case(kind, p):
    return globals()["do_" + kind](*p)


# Running a tool -------------------------------------------------------------------------------------------


def tool(name, *args):
    """(exit code, standard output, what the exception said) of one run, in a forked process as a tool is one."""
    main = importlib.import_module("objutils.scripts." + name).main
    sys.stdout.flush()
    with tempfile.TemporaryFile() as out, tempfile.TemporaryFile() as err:
        pid = os.fork()
        if not pid:
            code = 1
            try:
                os.dup2(out.fileno(), 1)
                sys.argv = [name, *map(str, args)]
                try:
                    main()
                    code = 0
                except SystemExit as x:
                    code = x.code if isinstance(x.code, int) else 0 if x.code is None else 1
                except BaseException as x:
                    err.write(repr(x).encode("utf8", "replace"))
                    err.flush()
                sys.stdout.flush()
            finally:
                os._exit(code)
        try:
            status = os.waitpid(pid, 0)[1]
        except BaseException:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            raise
        out.seek(0)
        err.seek(0)
        return os.waitstatus_to_exitcode(status), out.read().decode("utf8", "replace"), err.read().decode("utf8")


def process(name, *args, cwd):
    """The same in a process of its own."""
    env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf8")
    r = subprocess.run([sys.executable, "-m", "objutils.scripts." + name, *map(str, args)], cwd=cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=100)
    return r.returncode, r.stdout.decode("utf8", "replace")


def succeeds(name, *args):
    code, text, err = tool(name, *args)
    check_eq(code, 0, f"exit code of {name} {list(map(str, args[1:]))}, which printed {text[-200:]!r} and raised {err[-300:]}")
    return text


class Files:
    """A scratch directory with one file."""

    def __init__(self, blob, name="a.elf"):
        self.blob, self.name = blob, name

    def __enter__(self):
        self.ctx = elfs.scratch()
        self.dir = self.ctx.__enter__()
        self.path = os.path.join(self.dir, self.name)
        elfs.write(self.path, self.blob)
        return self

    def __exit__(self, *x):
        return self.ctx.__exit__(*x)

    def content(self, name):
        try:
            with open(os.path.join(self.dir, name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None


def isrule(line):
    return len(line) > 5 and set(line) == {"-"}


def blocks(text):
    """[(title, lines)] of '====' headed parts; what is in front of them has the title None."""
    lines = text.split("\n")
    out, i = [(None, [])], 0
    while i < len(lines):
        a = lines[i]
        if a and set(a) == {"="} and i + 2 < len(lines) and lines[i + 2] == a and len(lines[i + 1]) == len(a):
            out.append((lines[i + 1], []))
            i += 3
        else:
            out[-1][1].append(lines[i])
            i += 1
    return out


def rows_of(lines):
    """Lines behind the rule which ends the column titles."""
    at = [i for i, x in enumerate(lines) if isrule(x)]
    check(at, "no table in %r", lines[:5])
    return lines[at[0] + 1 :]


def numeral(text):
    """A number printed for want of a name."""
    for base in (0, 16):
        try:
            return int(text, base)
        except ValueError:
            pass
    return text


def shown(text, names, value):
    """The text stands for the value: its name or, if it has none, the number."""
    if value in names:
        return text == names[value]
    for base in (0, 10, 16):
        try:
            if int(text, base) == value:
                return True
        except ValueError:
            pass
    return False


# oj_hex_info ----------------------------------------------------------------------------------------------


def hex_output(text, want, dump):
    lines = text.split("\n")
    titles = [i for i, x in enumerate(lines) if x.split()[:2] == ["Num", "Address"]]
    at = [i for i, x in enumerate(lines) if isrule(x) and titles and i > titles[0]]
    check(len(at) >= 2, "no table of sections: %r", text[:300])
    got = [tuple(x.split()) for x in lines[at[0] + 1 : at[1]]]
    check_eq([(int(n), int(a, 16), int(k)) for n, a, k in got], [(i, a, len(d)) for i, (a, d) in enumerate(want)], "sections")
    total = lines[at[1] + 1]
    check_eq(total.split()[:2], [str(sum(len(d) for _, d in want)), "total"], "total")
    rest = "\n".join(lines[at[1] + 2 :])
    if not dump:
        check_eq(rest.strip(), "", "behind the total")
        return
    parts = re.split(r"\nSection #(\d{4,})\n-+\n", rest)
    check_eq(parts[0].strip(), "", "text before the first section")
    check_eq([int(x) for x in parts[1::2]], list(range(len(want))), "numbers of dumped sections")
    for (a, d), part in zip(want, parts[2::2]):
        check_eq(h01.parse(part, a, len(d)), d, "content shown")


def document(name, secs):
    step = min(CODECS[name].max_row or 32, 32)
    records = []
    for a, d in secs:
        i = 0
        while i < len(d):
            n = len(d) if not CODECS[name].rows else min(step, len(d) - i, 0x10000 - (a + i) % 0x10000)
            records.append((a + i, d[i : i + n]))
            i += n
    return CODECS[name].encode(records, STYLES[name][0])


def do_hexinfo(name, dump, spec):
    secs = images.build(spec)
    want = normalize(cells_of(secs))
    with Files(document(name, secs), "a.hex") as f:
        hex_output(succeeds("oj_hex_info", name, f.path, *(["-d"] if dump else [])), want, dump)
        check_eq(os.listdir(f.dir), ["a.hex"], "files")
        check_eq(f.content("a.hex"), f.blob, "the file")
    return len(want)


# oj_elf_extract -------------------------------------------------------------------------------------------


def listed(text):
    """[(name, address, size)] and the written number of bytes."""
    lines = text.split("\n")
    at = [i for i, x in enumerate(lines) if isrule(x)]
    check_eq(len(at), 2, "number of rules")
    rows = []
    for x in lines[at[0] + 1 : at[1]]:
        f = x.split()
        rows.append((" ".join(f[:-2]), int(f[-2], 16), int(f[-1])))
    tail = [x for x in lines[at[1] + 1 :] if x.strip()]
    return rows, tail


def extraction(f, sections, fmt, inc="", exc="", join=False, name="out.hex", fill=None):
    parts, names = e02.expected(sections, inc, exc, join)
    out = os.path.join(f.dir, name)
    args = [f.path, out]
    if fmt != "ihex":
        args += ["-t", fmt]
    if join:
        args += ["-j"]
    if inc:
        args += ["-i", inc]
    if exc:
        args += ["-e", exc]
    text = succeeds("oj_elf_extract", *args)
    rows, tail = listed(text)
    use = {s["name"]: s for s in sections}
    check_eq(rows, [(n, use[n]["addr"], use[n]["size"]) for n in names], f"sections listed for {args[2:]}")
    total = sum(len(d) for _, d in parts)
    if total:
        check(len(tail) == 1 and f"[{total} total bytes]" in tail[0] and out in tail[0], "last line: %r, %d bytes", tail, total)
        records = CODECS[fmt].decode(f.content(name))
        check_eq(normalize(cells_of(records)), normalize(cells_of(parts)), f"content of the written file for {args[2:]}")
        if fmt == "shf":
            check_eq(tuple((a, bytes(d)) for a, d in records), parts, "sections of the written file")
    else:
        check_eq((tail, f.content(name)), ([], fill), "nothing to extract")
    check_eq(f.content("a.elf"), f.blob, "the ELF file")
    return parts


def do_extract(seq, fmt):
    secs = [e02.sec(f".s{i}.{k}", k, 0x100 + 0x10 * i, i) for i, k in enumerate(seq)]
    touching, at = [], 0x200
    for i, k in enumerate(seq):
        touching.append(e02.sec(f".t{i}", k, at, i + 5))
        at += len(touching[-1]["data"] or b"")
    blob, meta = elfgen.build(1 + len(seq) % 2, 1, secs + touching)
    with Files(blob) as f:
        for join in (False, True) if len(seq) != 3 else [len(set(seq)) % 2 == 0]:
            for _ in range(2 if join else 1):  # into a new file and over an old one
                parts = extraction(f, meta["sections"], fmt, join=join, name=f"out{join}.hex")
        if not parts:  # an old file is not touched if there is nothing to write
            elfs.write(os.path.join(f.dir, "old.hex"), b"old")
            extraction(f, meta["sections"], fmt, name="old.hex", fill=b"old")
    return len(parts)


def do_orders(perm, gaps, fmt, join):
    base = 0xFFF0 if fmt != "titxt" else 0x40
    secs, at = [], base
    for i in range(4):
        n = (30, 1, 2, 17)[i]
        secs.append(e02.sec(f".s{i}", "text", at, i, data=pattern(n, i)))
        at += n + (1 if gaps >> i & 1 else 0)
    blob, meta = elfgen.build(1 + gaps % 2, 1 + join, [secs[i] for i in perm])
    with Files(blob) as f:
        return hash(extraction(f, meta["sections"], fmt, join=bool(join)))


def do_patterns(inc, exc):
    names = [n for n in e02.NAMES if n.isascii() and n] + ["text", ".bss.text"]
    secs = [e02.sec(n, "data", 0x100 * i + 0x40, i, data=pattern(i + 1, i)) for i, n in enumerate(names)]
    blob, meta = elfgen.build(1, 1, secs)
    with Files(blob) as f:
        parts = extraction(f, meta["sections"], OUTPUTS[(inc + exc) % 4], e02.PATTERNS[inc], e02.PATTERNS[exc], join=inc % 2 == 0)
    return hash(parts)


def do_sizes(n, fmt):
    base = 0x100 if fmt != "titxt" or n < 30000 else 0
    gap = 0x10 if fmt != "titxt" or n < 1000 else None
    secs = [e02.sec(".a", "text", base, 1, data=pattern(n, 1))]
    if fmt == "titxt" and base + n > 1 << 16:
        return "beyond the format"
    if gap:
        secs.insert(0, e02.sec(".b", "data", base + n + gap, 2, data=pattern(n if n < 30000 else 7, 2)))
    blob, meta = elfgen.build(2, 2, secs)
    with Files(blob) as f:
        return hash(extraction(f, meta["sections"], fmt, join=bool(n % 2)))


# oj_elf_syms ----------------------------------------------------------------------------------------------

FILTERS = (
    [("-s", "sections", x) for x in e03.SECTSTRS[2:]]
    + [("-p", "name_pattern", x) for x in ("s", "s1", "s..5", ".*3$", "[^s]", "S")]
    + [("-t", "types_str", x) for x in ("func", "object", "notype", "func,tls", "FUNC", "func object", "nothing")]
    + [("-b", "bindings", x) for x in ("g", "l", "w", "g l", "l,w", "G", "q")]
    + [("-a", "access", x) for x in ("a", "w", "x", "X")]
)
LONG = {"-s": "--sections", "-p": "--pattern", "-t": "--types", "-b": "--bindings", "-a": "--access", "-o": "--order-by"}


def sym_output(text, ys, order):
    """Rows of the listing, checked to be in order."""
    got, names = [], []
    for title, lines in blocks(text):
        if title is None:
            continue
        names.append(title)
        body = rows_of(lines)
        while body and body[-1] == "":
            body.pop()
        keys = []
        for i in range(0, len(body), 3):
            name, row = body[i], body[i + 1]
            f = row.split(None, 3)
            access = row[len(row.rstrip()) :] if len(f) < 4 else ""
            kind = f[3].split(None, 1)
            letters = set(kind[1].replace(" ", "")) if len(kind) > 1 else set()
            check(letters <= set("AWX") and access is not None, "access of %r", row)
            got.append((name.strip(), title, int(f[0], 16), int(f[1]), numeral(f[2]), numeral(kind[0]), "".join(sorted(letters))))
            keys.append(got[-1][2] if order == "V" else got[-1][0])
            check(i + 2 >= len(body) or body[i + 2] == "", "rows are not separated: %r", body[i : i + 3])
        check(keys, "empty section %r", title)
        check_eq(keys, sorted(keys), f"order ({order}) in {title}")
    check_eq(names, sorted(names), "order of the sections")
    want = []
    for y in ys:
        letters = "".join(sorted(c for c, bit in (("A", 2), ("W", 1), ("X", 4)) if y["access"] & bit))
        want.append((y["name"], y["section"], y["value"], y["size"], STB.get(y["bind"], y["bind"]), STT.get(y["type"], y["type"]), letters))
    check_eq(sorted(got, key=repr), sorted(want, key=repr), "symbols")
    return len(got)


def symbols(path, ys, order=None, **filters):
    args = []
    for flag, key, value in FLAGS:
        if filters.get(key) is not None:
            args += [flag if len(args) % 4 == 0 else LONG[flag], filters[key]]
    if order:
        args += ["-o", order]
    return sym_output(succeeds("oj_elf_syms", path, *args), e03.select(ys, **filters), order or "V")


FLAGS = [("-s", "sections", None), ("-p", "name_pattern", None), ("-t", "types_str", None), ("-b", "bindings", None), ("-a", "access", None)]


def do_syms(f, g, order):
    blob, ys = e03.table(e03.population(), 1 + f % 2, 1 + g % 2)
    filters = {}
    for _, key, value in (FILTERS[f], FILTERS[g]):
        filters[key] = value
    with Files(blob) as x:
        n = symbols(x.path, ys, (None, "N", "V")[order], **filters)
        if f == g:
            symbols(x.path, ys, (None, "N", "V")[order])
            symbols(x.path, ys, (None, "N", "V")[order], **filters)
    return n


def do_symrows(cls, e, v, bind):
    top = (1 << 32 * cls) - 1
    ys = []
    for i, (type_, shndx) in enumerate(itertools.product((*STT, *OTHER["stt"]), e03.WHERE)):
        ys.append(sym(f"s{i}" if i % 7 else "long" * 9 + str(i), value=v if i % 3 else (v + i) & top, size=v if i % 2 == 0 and v < 1 << 63 else i, bind=bind, type=type_, shndx=shndx))
    blob, ys = e03.table(ys, e, cls)
    with Files(blob) as x:
        n = symbols(x.path, ys)
        symbols(x.path, ys, "N")
    return n


# oj_elf_info ----------------------------------------------------------------------------------------------


def info_output(text, meta, comment=None, notes=(), more=False):
    parts = blocks(text)
    head = {}
    for line in parts[0][1]:
        if line.strip():
            f = line.replace(":", " ").split()
            head[f[0]] = line.split(None, 1)[1]
    check(str(32 * meta["cls"]) in head["Class:"] and str(96 - 32 * meta["cls"]) not in head["Class:"] if "Class:" in head else "Class" in head, "class: %r", head)
    values = {k.rstrip(":"): v for k, v in head.items()}
    check(f"{32 * meta['cls']}" in values["Class"] and f"{32 * (3 - meta['cls'])}" not in values["Class"], "class %r", values["Class"])
    check(shown(values["Type"].split()[0], ET, meta["etype"]), "type of the file: %r for %#x", values["Type"], meta["etype"])
    if meta["machine"] in EM:
        check_eq(values["Machine"].split()[0], EM[meta["machine"]], "machine")
    check_eq(("little" in values["Data"].lower(), "big" in values["Data"].lower()), (meta["data"] == 1, meta["data"] == 2), "byte order")
    f = values["OS/ABI"].split()
    check(shown(f[0], OSABI, meta["osabi"]) and f[-1] == f"v{meta['abiversion']}", "ABI: %r for %d, version %d", f, meta["osabi"], meta["abiversion"])
    check_eq([t for t, _ in parts[1:3]], ["Sections", "Segments"], "parts")
    got = []
    for line in rows_of(parts[1][1]):
        if line.strip():
            f = line.rsplit(None, 5)
            f = [""] * (6 - len(f)) + f
            got.append((f[0].strip(), f[1], *(int(x, 16) for x in f[2:5]), int(f[5])))
    check_eq([x[:1] + x[2:] for x in got], [(s["name"], s["addr"], s["offset"], s["size"], s["align"]) for s in meta["sections"]], "sections")
    for x, s in zip(got, meta["sections"]):
        check(shown(x[1], SHT, s["type"]), "type of %s: %r for %#x", s["name"], x[1], s["type"])
    got = []
    table = rows_of(parts[2][1])
    for line in table[: len(meta["segments"])] if more else table:
        if line.strip():
            f = line.split()
            got.append((f[0], *(int(x, 16) for x in f[1:6]), f[6], int(f[7])))
    want = []
    for s in meta["segments"]:
        flags = "".join(c if s["flags"] & bit else "-" for c, bit in (("R", 4), ("W", 2), ("X", 1)))
        want.append((s["offset"], s["vaddr"], s["paddr"], s["filesz"], s["memsz"], flags, s["align"]))
    check_eq([x[1:] for x in got], want, "segments")
    for x, s in zip(got, meta["segments"]):
        check(shown(x[0], PT, s["type"]), "type of a segment: %r for %#x", x[0], s["type"])
    rest = parts[3:]
    if comment:
        check(rest and rest[0][0] == ".comment", "no comment in %r", rest)
        check_eq("\n".join(rest[0][1]).strip("\n"), comment, "comment")
        rest = rest[1:]
    if more:
        return
    got = []
    for title, lines in rest:
        for line in rows_of(lines):
            if line.strip():
                f = line.split()
                got.append((title, int(f[0]), *f[1:]))
    check_eq(sorted(got, key=lambda n: n[0]), sorted(notes, key=lambda n: n[0]), "notes")


def info(blob, meta, **kw):
    with Files(blob) as f:
        for how in ("import", "data base"):
            text = succeeds("oj_elf_info", f.path)
            try:
                info_output(text, meta, **kw)
            except core.Violation as x:
                raise core.Violation(f"{how}: {x}") from x
    return len(text)


def do_header(cls, e, field, v):
    kw = {field: v}
    return info(*elfgen.build(cls, e, [sec(".text", addr=0x100)], **kw))


def do_sections(cls, e, field, v):
    if field == "count":
        secs = [sec(f".s{i}", addr=7 * i, align=1 << i % 5, data=pattern(i % 5, i)) for i in range(v)]
    elif field == "name":
        secs = [sec("." + "n" * v, addr=5), sec("x" * v)]
    elif field == "size":
        secs = [sec(".a"), sec(".bss", type=8, data=None, size=v), sec(".b", data=pattern(v, 3))]
    elif field == "type" and v in (2, 11):
        tabs, _ = symtabs(cls, e, [sym("a", shndx=0)], index=2, type=v)
        secs = [sec(".a"), *tabs]
    else:
        secs = [sec(".a", addr=1), sec(".b", **{field: v}, **(dict(data=b"\0a\0b\0") if field == "type" and v == 3 else dict(data=b"") if field == "type" and v == 7 else {})), sec(".c")]
    blob, meta = elfgen.build(cls, e, secs)
    return info(blob, meta)


def do_segments(cls, e, field, v):
    if field == "count":
        segs = [seg(vaddr=0x10 * i, flags=i % 8, type=list(PT)[i % len(PT)]) for i in range(v)]
    else:
        segs = [seg(), seg(**{field: v}), seg(vaddr=7)]
    return info(*elfgen.build(cls, e, [sec(".text")], segs))


def do_texts(cls, e, k, c):
    """Comments and notes, in all combinations."""
    comment = [None, "one", "GCC: (GNU) 9.3.0", "a\nb c"][c]
    secs = [sec(".text")]
    if comment:
        secs.append(sec(".comment", data=comment.replace("\n", "\0").encode() + b"\0"))
    notes = []
    if k & 1:
        secs.append(sec(".note.b", type=7, data=e05.note(e, b"GNU\0", bytes(range(20)), 3)))
        notes.append((".note.b", 3, "GNU", bytes(range(20)).hex()))
    if k & 2:
        secs.insert(0, sec(".note.a", type=7, data=e05.note(e, b"CORE\0", b"\xff", 0xFFFFFFFF) + e05.note(e, b"A\0", b"abc", 0)))
        notes += [(".note.a", 0xFFFFFFFF, "CORE", "ff"), (".note.a", 0, "A", "616263")]
    if k & 4:
        secs.append(sec(".note.c", type=7, data=e05.note(e, b"Long-name-of-a-note\0", b"\0" * 5, 12345)))
        notes.append((".note.c", 12345, "Long-name-of-a-note", "00" * 5))
    blob, meta = elfgen.build(cls, e, secs)
    return info(blob, meta, comment=comment, notes=notes)


def tree_output(text, expect):
    """The debugging information entries as printed: level, offset, tag, and the attributes with plain values."""
    from mc.checks import w03

    got = []
    for line in text.split("\n"):
        m = re.match(r"\s*<(\d+)><([0-9a-f]+)>: Abbrev Number: (\d+) \((.*)\)$", line)
        if m:
            got.append((int(m[1]), int(m[2], 16), m[4], []))
            continue
        m = re.match(r"\s*<([0-9a-f]+)> ([^:]+): (.*)$", line)
        if m and got:
            got[-1][3].append((m[2], m[3]))
    want = []

    def walk(node, level):
        tag, attrs, children, pos = node
        want.append((level, pos, w03.TAGS[tag], [(w03.ATTRS[a], str(value)) if a in w03.ATTRS and not f.startswith("ref") else None for a, f, value, _ in attrs]))
        for c in children:
            walk(c, level + 1)

    for unit in expect:
        walk(unit, 0)
    check_eq([g[:3] for g in got], [w[:3] for w in want], "debugging information entries")
    for g, w in zip(got, want):
        check_eq(len(g[3]), len(w[3]), f"number of attributes printed at {g[1]:#x}")
        for x, y in zip(g[3], w[3]):
            check(y is None or x == y, "attribute at %#x: printed %r, expected %r", g[1], x, y)


def do_dwarf(cls, e, order, tree):
    """Debug sections: the listing goes on with their entries."""
    from mc.checks import w03

    if tree is None:
        blob, meta, x = w03.elf_document(cls, e, order)
    else:
        x = w03.Info("<" if e == 1 else ">", 4 * cls)
        t = x.table(w03.Table())
        flags = itertools.cycle((False, True))
        root = w03.shape(tree, lambda: next(flags), [0])
        blob, meta, x = w03.elf_with(cls, e, order, x.prepare([dict(table=t, root=w03.small(1)), dict(table=t, root=root, version=4 + order % 2)]))
    with Files(blob) as f:
        for how in ("import", "data base"):
            text = succeeds("oj_elf_info", f.path)
            info_output(text, meta, more=True)
            tree_output(text, x.expect)
    return len(text)


def leb(n):
    out = b""
    while True:
        n, low = n >> 7, n & 0x7F
        if not n:
            return out + bytes([low])
        out += bytes([low | 0x80])


def address_table(order, size, counts, pad):
    out, at = b"", 0x1000
    for i, n in enumerate(counts):
        body = (2).to_bytes(2, order) + (0x40 * i).to_bytes(4, order) + bytes([size, 0])
        body += b"\0" * (-(len(body) + 4) % (2 * size))
        for k in range(n):
            body += at.to_bytes(size, order) + (k + 1 + (0x10000 if i else 0)).to_bytes(size, order)
            at = (at * 3 + 0x100) % (1 << 8 * size)
        body += bytes(2 * size * (1 + pad))
        out += len(body).to_bytes(4, order) + body
    return out


NAMES = ["main", "gr\u00f6\u00dfe", "a", "value_1", "operator+", "t::\u20ac"]
OFFSETS = [0x1B, 0x100, 0x10000, 0x1000000, 0xFFFFFFFF, 1]


def name_table(order, counts, pad):
    out, names, j = b"", [], 0
    for i, n in enumerate(counts):
        body = (2).to_bytes(2, order) + (0x40 * i).to_bytes(4, order) + (0x40).to_bytes(4, order)
        for k in range(n):
            names.append((OFFSETS[j % 6], NAMES[(j + i) % 6]))
            body += names[-1][0].to_bytes(4, order) + names[-1][1].encode() + b"\0"
            j += 1
        body += bytes(4 + 3 * pad)
        out += len(body).to_bytes(4, order) + body
    return out, names


def line_table(order, version, n):
    """A line number program of n files, with a program of n instructions."""
    base = 13 if version > 2 else 10
    tail = bytes([1, *([1] if version > 3 else []), 1, 0xFB, 14, base]) + bytes([0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1][: base - 1])
    if version < 5:
        tail += b"".join((f"dir{i}", f"d\u00f6r{i}")[i % 2].encode() + b"\0" for i in range(n)) + b"\0"
        tail += b"".join((f"f{i}.c", f"\u00df{i}.c")[i % 2].encode() + b"\0" + leb(i) + leb(0) + leb(200 * i) for i in range(n)) + b"\0"
    else:
        tail += bytes([1, 1, 8]) + leb(n) + b"".join(b"/d\0" for _ in range(n)) + bytes([1, 1, 8]) + leb(n) + b"".join(b"f.c\0" for _ in range(n))
    program = bytes([0, 5, 2, 0, 0x10, 0, 0]) + bytes([0x20 + i for i in range(n)]) + bytes([2, 1, 0, 1, 1])
    head = version.to_bytes(2, order) + (b"\4\0" if version > 4 else b"") + len(tail).to_bytes(4, order)
    return (len(head + tail + program)).to_bytes(4, order) + head + tail + program


def macro_table(seq, units):
    """The old form of the macro information."""
    out = b""
    for u in range(units):
        for i, k in enumerate(seq):
            out += bytes([k]) if k != 0xFF else leb(0xFF)
            out += {1: leb(300 * i) + (b"A 1\0", "GR\u00dcN \u20ac\0".encode())[i % 2], 2: leb(i) + (b"A\0", "\u00e4\0".encode())[u % 2], 3: leb(i) + leb(u), 4: b"", 0xFF: leb(200) + b"v\0"}[k]
        out += b"\0"
    return out


def do_tables(cls, e, kind, spec, n):
    """The tables beside the debugging information do not keep it from being listed, and their names are listed, too."""
    from mc.checks import w03

    order = ("little", "big")[e - 1]
    x = w03.Info("<" if e == 1 else ">", 4 * cls)
    x.prepare([dict(table=x.table(w03.Table()), root=w03.small(1))])
    secs = [sec(m, type=1, flags=0, addr=0, data=d) for m, d in w03.sections(x).items()]
    names, more = [], {}
    have = x.expect
    if kind == "partial":
        full = {".debug_line": line_table(order, 4, 1), ".debug_str": b"abc\0", ".debug_frame": bytes(12), ".debug_pubnames": name_table(order, [2], 0)[0]}
        for (m, data), state in zip(full.items(), spec[1:]):
            if state:
                more[m] = data if state == 2 else b""
        names = name_table(order, [2], 0)[1] if spec[4] == 2 else []
        if spec[0] < 2:
            have = []
            secs = [sec(m, type=1, flags=0, addr=0, data=b"") for m in (".debug_info", ".debug_abbrev")] if spec[0] else []
        else:
            more.pop(".debug_str", 0)
    elif kind == "aranges":
        more[".debug_aranges"] = address_table(order, 4 * cls, spec, n)
    elif kind == "pubnames":
        more[".debug_pubnames"], names = name_table(order, spec, n)
    elif kind == "line":
        more[".debug_line"] = line_table(order, spec[0], n)
    elif kind == "macinfo":
        more[".debug_macinfo"] = macro_table(spec, n)
    elif kind == "macro":
        more[".debug_macro"] = spec[0].to_bytes(2, order) + bytes([n]) + (bytes((4, 8)[n & 1]) if n & 2 else b"") + b"\0"
    else:
        if n & 1:
            more[".debug_aranges"] = address_table(order, 4 * cls, [1, 2], n & 2)
        if n & 2:
            more[".debug_pubnames"], names = name_table(order, [2, 1], 0)
        if n & 4:
            more[".debug_line"] = line_table(order, 2 + n % 3, 2)
        if n & 8:
            more[".debug_macinfo"] = macro_table([3, 1, 2, 4], 2)
    tabs = [sec(m, type=1, flags=0, addr=0, data=d) for m, d in more.items()]
    blob, meta = elfgen.build(cls, e, [sec(".text"), *(tabs + secs if n % 2 else secs + tabs)])
    with Files(blob) as f:
        for how in ("import", "data base"):
            text = succeeds("oj_elf_info", f.path)
            info_output(text, meta, more=True)
            tree_output(text, have)
            got = [(int(a), b) for a, b in re.findall(r"^ENTRY\b.*?\boffset = (\d+)\s+name = u?'([^']*)'", text, re.S | re.M)]
            check_eq(got, names, "public names")
    return len(text)


# oj_elf_arm_attrs -----------------------------------------------------------------------------------------


def attr_output(text, vendors):
    want = e05.expected(vendors)
    parts = blocks(text)
    check_eq([t for t, _ in parts[1:]], list(want), "vendors")
    for title, lines in parts[1:]:
        body = rows_of(lines)
        at = 0
        for tag, name, value, meaning in want[title]:
            check(at + 1 < len(body), "attribute %d is missing", tag)
            check_eq(body[at].split(), [*name.split(), *str(value).split()], "attribute")
            at += 1
            if tag != 20:
                text = str(meaning).strip()
                shown = "\n".join(body[at : at + text.count("\n") + 1]).strip()
                check_eq(" ".join(shown.split()), " ".join(text.split()), f"meaning of {name}")
            while at < len(body) and body[at].strip() and not body[at].startswith("Tag_"):
                at += 1
            while at < len(body) and not body[at].strip():
                at += 1
        check(at >= len(body), "more attributes: %r", body[at:])


def attributes(e, vendors, cls=1, machine=40):
    secs = [sec(".text")]
    if vendors is not None:
        secs.append(sec(".ARM.attributes", type=0x70000003, flags=0, data=e05.blob_of(e, vendors)))
    blob, meta = elfgen.build(cls, e, secs, machine=machine)
    with Files(blob) as f:
        for _ in range(2):
            code, text, _ = tool("oj_elf_arm_attrs", f.path)
            if machine not in (40, 183):
                check_eq(code, 2, "exit code for another machine")
                check("not an ARM" in text, "message: %r", text)
                check(not vendors or vendors[0][0] not in text, "attributes are shown")
                continue
            check_eq(code, 0, f"exit code, output {text[:200]!r}")
            if vendors:
                attr_output(text, vendors)
            else:
                check("No .ARM.attributes" in text, "message: %r", text)
    return len(text)


def do_attributes(t, e):
    values = [0, 1, 2, 3, 4, 65, 300] if TAGS[t][1] == "u" else ["", "7-A", "ARM 6"]
    out = 0
    for i, v in enumerate(values):
        out += attributes(e, [("aeabi", [[(t, v)]])], 1 + i % 2, (40, 183)[i % 2])
    first = next(k for k in sorted(TAGS) if k != t and TAGS[k][1] == "u")
    attributes(e, [("aeabi", [[(first, 2), (t, v)], [(5, "x"), (t, values[1])]]), ("gnu", [[(t, v)]])])
    return out


def do_machines(m):
    vendors = [("aeabi", [[(6, 10)]])]
    return attributes(1 + m % 2, vendors, 1 + m // 2 % 2, m), attributes(1, None, 1, m)


# Failures, sequences, processes ---------------------------------------------------------------------------


def do_refused(name, k):
    """No file, not a file of that kind, an empty file, a directory: the tool says so and fails, and leaves nothing behind."""
    with Files(b"", "x") as f:
        path = f.path
        if isinstance(k, str):
            text = document(k, [(0x100, b"\1\2\3\4\5")])
            line = text.split(b"\n")[0]
            elfs.write(path, text.replace(line, line[:-1] + (b"0" if line[-1:] != b"0" else b"1")))
            args = [k, path]
        else:
            if k == 0:
                os.unlink(path)
            elif k == 1:
                elfs.write(path, b"this is something else\n" * 9)
            elif k == 3:
                os.unlink(path)
                os.mkdir(path)
            if name == "oj_hex_info":
                if k in (1, 2):
                    return "depends on the format"
                args = ["ihex", path]
            else:
                args = [path] + ([os.path.join(f.dir, "out.hex")] if name == "oj_elf_extract" else [])
        code, text, err = tool(name, *args)
        check(code != 0, "%s succeeded (%d): %r", name, k if isinstance(k, int) else -1, text[:200])
        check(text.strip() or err or code == 2, "no message")
        check("total bytes" not in text and "Class:" not in text, "output: %r", text[:200])
        check(f.content("out.hex") is None, "a file was written")
        return code


def do_runs(seq):
    """Runs of the tools one after the other on two files: none depends on the ones before."""
    blob, ys = e03.table([sym("aa", value=3, shndx=1), sym("bb", value=2, shndx=2, type=1), sym("cc", value=1, shndx=1)])
    segs = [seg()]
    other, meta = elfgen.build(2, 2, [e02.sec(".a", "text", 0x108, 1), e02.sec(".b", "data", 0x100, 2)], segs, machine=62)
    arm, armmeta = elfgen.build(1, 1, [sec(".t", addr=0x40), sec(".ARM.attributes", type=0x70000003, flags=0, data=e05.blob_of(1, [("aeabi", [[(6, 10)]])]))])
    one, two = document("ihex", [(0x10, b"\1\2")]), document("srec", [(0x10, b"\1"), (0x20, b"\2\3")])
    with Files(other) as f:
        for n, data in (("s.elf", blob), ("arm.elf", arm), ("1.hex", one), ("2.s19", two)):
            elfs.write(os.path.join(f.dir, n), data)
        path = lambda n: os.path.join(f.dir, n)
        for k in seq:
            if k == 0:
                hex_output(succeeds("oj_hex_info", "ihex", path("1.hex")), ((0x10, b"\1\2"),), False)
            elif k == 1:
                hex_output(succeeds("oj_hex_info", "srec", path("2.s19"), "--dump"), ((0x10, b"\1"), (0x20, b"\2\3")), True)
            elif k == 2:
                symbols(path("s.elf"), ys, sections=".text")
            elif k == 3:
                symbols(path("s.elf"), ys, "N")
            elif k == 4:
                extraction(f, meta["sections"], "srec", join=True)
            elif k == 5:
                extraction(f, meta["sections"], "ihex", exc=r"\.b")
                info_output(succeeds("oj_elf_info", f.path), meta)
            else:
                attr_output(succeeds("oj_elf_arm_attrs", path("arm.elf")), [("aeabi", [[(6, 10)]])])
                code, text, _ = tool("oj_elf_arm_attrs", f.path)
                check_eq(code, 2, "exit code for another machine")
    return len(seq)


def do_entry(k):
    """Each tool as a program of its own, given a path relative to the current directory."""
    segs = [seg()]
    other, meta = elfgen.build(1, 1, [e02.sec(".a", "text", 0x108, 1), e02.sec(".b", "data", 0x100, 2)], segs)
    blob, ys = e03.table([sym("aa", value=3, shndx=1), sym("bb", value=2, shndx=2, type=1)])
    with Files(other) as f:
        if k == 0:
            elfs.write(os.path.join(f.dir, "1.hex"), document("ihex", [(0x10, b"\1\2")]))
            code, text = process("oj_hex_info", "ihex", "1.hex", "-d", cwd=f.dir)
            hex_output(text, ((0x10, b"\1\2"),), True)
        elif k == 1:
            code, text = process("oj_elf_extract", "a.elf", "out.hex", cwd=f.dir)
            check_eq(normalize(cells_of(CODECS["ihex"].decode(f.content("out.hex")))), e02.expected(meta["sections"])[0], "content of the written file")
        elif k == 2:
            elfs.write(os.path.join(f.dir, "s.elf"), blob)
            code, text = process("oj_elf_syms", "s.elf", cwd=f.dir)
            sym_output(text, ys, "V")
        elif k == 3:
            code, text = process("oj_elf_info", "a.elf", cwd=f.dir)
            info_output(text, meta)
        elif k == 4:
            code, text = process("oj_elf_arm_attrs", "a.elf", cwd=f.dir)
        else:
            code, text = process(*[("oj_hex_info", "ihex", "none.hex"), ("oj_elf_syms", "none.elf")][k - 5], cwd=f.dir)
            check(code != 0, "exit code for a missing file")
            code = 0
        check_eq(code, 0, "exit code")
    return k
