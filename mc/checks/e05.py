"""E05: notes, comments and ARM build attributes are shown as they are in the file."""

import itertools
import re
import struct

from mc import core, elfgen, elfs
from mc.checks.e01 import sec, sym, symtabs
from mc.core import check, check_eq, pattern
from mc.refarm import TAGS

ID = "E05"
LEVEL = "exploration"
RULE = (
    "Notes: all lengths of name and descriptor up to 9 (and large ones), 14 types x 23 descriptors x 10 names, all lengths up to 9 and 20 of three notes in sections of each alignment, up to 4 comment sections, up to 1000 notes, comments, attributes and 260 sections, strings of up to 70000 characters, boundary types, up to 3 notes in up to 3 sections of equal and different "
    "names and orders. Comments: all sequences of up to 4 strings of an alphabet, with and without final terminator. ARM attributes: every tag x boundary values "
    "and strings, all pairs of tags, all nestings of up to 3 vendors and 3 subsections, subsections of files, sections and symbols in all orders of up to 3 and lists of numbers, every documented value's meaning. Each x class x byte order, freshly "
    "imported and from the data base."
)
ASSUMPTIONS = [
    "names of notes are ASCII, comments UTF-8",
    "the meaning of the values of Tag_ABI_FP_denormal is left out (a test of the repository fixes a wrong one)",
    "attributes of sections and symbols are shown among the others of their vendor, what they apply to is not shown; Tag_compatibility shows its flag and its vendor, "
    "in which words is not fixed",
]
BOTH = [(c, e) for c in (1, 2) for e in (1, 2)]
STRINGS = ["", "a", "GCC: (GNU) 9.3.0", "\xe9\u4e2d", "b\nc", " "]


def spaces(tier):
    quick = tier == "quick"

    def note_sizes():
        for cls, e in BOTH:
            for n in (*range(0, 10), 255, 256):
                for m in (*range(0, 10), 16, 20, 255, 256, 4096, 70000):
                    if quick and (n > 4 and m > 9 or n + m > 300 and (cls, e) not in ((1, 2), (2, 1))):
                        continue
                    yield [cls, e, n, m]

    def note_types():
        for cls, e in BOTH:
            for bit in range(32):
                yield [cls, e, 1 << bit]
            yield [cls, e, 0]
            yield [cls, e, 0xFFFFFFFF]

    def note_sections():
        for n in range(0, 4):
            for counts in itertools.product(range(0, 4), repeat=n):
                for names in itertools.product(range(3), repeat=n):
                    if quick and n == 3 and sum(counts) > 5:
                        continue
                    yield [list(counts), list(names)]

    def comments():
        for n in range(0, 4 if quick else 5):
            for seq in itertools.product(range(len(STRINGS)), repeat=n):
                yield [list(seq)]

    def tags():
        for t in [*range(4, 72), 126, 127, 128, 129, 200, 201, 16382, 16383, 16384, 16385, (1 << 32) - 1, 1 << 32]:
            yield [t]

    def pairs():
        for a in sorted([*TAGS, 32, 33, 46, 128, 129]):
            yield [a]

    def nesting():
        for n in range(1, 4):
            for counts in itertools.product(range(0, 4), repeat=n):
                for e in (1, 2):
                    yield [e, list(counts)]

    def scopes():
        """Subsections of the scopes file, section, symbol in all orders x numbers they apply to."""
        numbers = [[], [1], [127, 128], [5, 16384, 2], [(1 << 32) - 1], list(range(1, 300))]
        for e in (1, 2):
            for n in range(1, 4):
                for tags in itertools.product((1, 2, 3), repeat=n):
                    for k in range(len(numbers)):
                        yield [e, [[t, numbers[(k + i) % len(numbers)] if t > 1 else []] for i, t in enumerate(tags)]]

    def meanings():
        for t in sorted(TAGS):
            yield [t]

    def files():
        for e in (1, 2):
            for k in range(16):
                yield [e, k]

    def note_contents():
        """Kinds of descriptors (zeros, leading and trailing ones, text, terminators) and names x types."""
        for cls, e in BOTH:
            for t in (*range(0, 9), 0x100, 0x101, 0x46494C45, 0x53494749, 0xFFFFFFFF):
                yield [cls, e, t]

    def note_alignments():
        for cls, e in BOTH:
            for align in (0, 1, 2, 4, 8, 16):
                for sizes in ([0, 1, 2, 3], [4, 5, 6, 7], [8, 9, 16]) if quick else ([k] for k in range(21)):
                    yield [cls, e, align, list(sizes), 1 if quick else 4]

    def several():
        """Up to 4 comment sections, some of them empty; sections of attributes without any."""
        for n in range(0, 5):
            for seq in itertools.product(range(4), repeat=n):
                yield [list(seq)]

    def large():
        for n in (15, 16, 17, 100, 255, 256, 257, 1000, *(() if quick else (5000, 40000))):
            yield ["notes", n]
            yield ["comments", n]
        for n in (127, 128, 255, 256, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 70000, *(() if quick else (1 << 20,))):
            yield ["comment", n]
            yield ["vendor", n]
            yield ["string", n]
        for n in (16, 17, 100, 257, 1000):
            yield ["attributes", n]
            yield ["subsections", n]
        for n in (16, 17, 40, 260):
            yield ["sections", n]

    return {"note_contents": note_contents, "large": large, "note_alignments": note_alignments, "several": several, "note_sizes": note_sizes, "note_types": note_types, "note_sections": note_sections, "comments": comments, "tags": tags,
            "pairs": pairs, "nesting": nesting, "scopes": scopes, "meanings": meanings, "files": files}


def run_case(kind, p):
    return globals()["do_" + kind](*p)


# Notes ----------------------------------------------------------------------------------------------------


def note(e, name, desc, type_, align=4):
    """name: bytes including the terminator"""
    w = "<" if e == 1 else ">"
    head = struct.pack(w + "III", len(name), len(desc), type_) + name
    return head + bytes(-len(head) % align) + desc + bytes(-len(desc) % align)


def notes_of(ep):
    return [(n.section_name, n.type, n.name, n.desc) for n in ep.notes]


def verify_notes(blob, want):
    with elfs.both(blob) as passes:
        for how, ep in passes():
            got = notes_of(ep)
            check_eq(sorted(got, key=lambda n: n[0]), sorted(want, key=lambda n: n[0]), f"{how}: notes")
            check_eq([n[0] for n in got], sorted(n[0] for n in got), f"{how}: order of the sections")


def do_note_sizes(cls, e, n, m):
    name = bytes(0x41 + i % 26 for i in range(max(0, n - 1))) + (b"\0" if n else b"")
    desc = pattern(m, n)
    data = note(e, name, desc, 3)
    blob, meta = elfgen.build(cls, e, [sec(".text"), sec(".note.x", type=7, data=data), sec(".z")])
    want = (".note.x", 3, name.rstrip(b"\0").decode(), desc.hex())
    verify_notes(blob, [want])
    # Followed by another one, the last one without its padding.
    tail = note(e, b"GNU\0", b"\1\2\3", 1)[:-1]
    blob, meta = elfgen.build(cls, e, [sec(".note.x", type=7, data=data + tail)])
    verify_notes(blob, [want, (".note.x", 1, "GNU", "010203")])
    return (n, m)


DESCS = [bytes(n) for n in (1, 2, 3, 4, 5, 8, 20)] + [b"ab\0\0", b"a\0\0\0", b"abc\0", b"abcd\0", b"abcd\0\0\0\0", b"\0\0ab", b"\0abc\0", b"\0\0\0\0abcd"]
DESCS += [b"\xff" * n for n in (1, 4, 7)] + [b"GNU\0", b"\4\0\0\0\0\0\0\0\1\0\0\0GNU\0", b"    ", b"\n\r\t ", b"'\";%s"]
NAMES = [b"", b"\0", b"a\0", b"GNU\0", b"CORE\0", b"stapsdt\0", b" x \0", b"a'b\"c%d\0", b"Linux\0", b"N" * 40 + b"\0"]


def do_note_contents(cls, e, t):
    want, data = [], b""
    for d in DESCS:
        for n in NAMES:
            data += note(e, n, d, t)
            want.append((".note.x", t, n.rstrip(b"\0").decode(), d.hex()))
    blob, meta = elfgen.build(cls, e, [sec(".note.x", type=7, data=data)])
    verify_notes(blob, want)
    for d in DESCS:
        blob, meta = elfgen.build(cls, e, [sec(".note.x", type=7, data=note(e, b"GNU\0", d, t))])
        verify_notes(blob, [(".note.x", t, "GNU", d.hex())])
    return t


def do_note_alignments(cls, e, align, sizes, tails):
    """Sections of each alignment: eight counts for the notes as well, all others mean four. Alone and next to one of the other alignment."""
    step = 8 if align == 8 else 4
    out = 0
    for n in range(0, 10):
        for k, tail in itertools.product(sizes, (b"GNU\0", b"", b"\0", b"12345678\0")[:tails]):
            name = bytes(0x41 + i % 26 for i in range(max(0, n - 1))) + (b"\0" if n else b"")
            notes = [(name, pattern(k, n), 3), (tail, pattern(7 - n % 4, k), 4), (b"Z\0", b"", 5)]
            data = b"".join(note(e, *x, step) for x in notes)
            other = b"".join(note(e, *x, 12 - step) for x in notes)
            rows = [(t, x.rstrip(b"\0").decode(), d.hex()) for x, d, t in notes]
            blob, meta = elfgen.build(cls, e, [sec(".note.b", type=7, data=other, align=12 - step), sec(".text"), sec(".note.a", type=7, data=data, align=align)])
            verify_notes(blob, [(".note.a", *r) for r in rows] + [(".note.b", *r) for r in rows])
            out += len(blob)
    return out


def do_large(what, n):
    cls, e = BOTH[n % 4]
    if what == "notes":
        want = [(".note", k, f"N{k}", pattern(k % 30, k).hex()) for k in range(n)]
        data = b"".join(note(e, b"N%d\0" % k, pattern(k % 30, k), k) for k in range(n))
        verify_notes(elfgen.build(cls, e, [sec(".note", type=7, data=data)])[0], want)
    elif what == "sections":
        want = [(f".note{k:04}", k, f"N{k}", pattern(k % 30, k).hex()) for k in range(n)]
        secs = [sec(f".note{k:04}", type=7, data=note(e, b"N%d\0" % k, pattern(k % 30, k), k)) for k in range(n)]
        verify_notes(elfgen.build(cls, e, secs[::-1] + [sec(".text")])[0], want)
    elif what in ("comments", "comment"):
        strings = [f"GCC: {k} \xe9" for k in range(n)] if what == "comments" else ["a", "xy\u20ac" * (n // 3) + "z" * (n % 3), "end"]
        blob, meta = elfgen.build(cls, e, [sec(".comment", flags=0x30, data=b"".join(s.encode() + b"\0" for s in strings))])
        with elfs.both(blob) as passes:
            for how, ep in passes():
                check_eq(ep.comment, "\n".join(strings), f"{how}: comment")
    else:
        name = lambda k: f"v{k}"  # noqa: E731
        vendors = {
            "vendor": lambda: [("V" * n, [[(6, 1), (5, "text")]]), ("aeabi", [[(7, 0x41)]])],
            "string": lambda: [("aeabi", [[(5, "s" * n), (6, 3), (67, "t" * (n - 1)), (7, 0x41)]])],
            "attributes": lambda: [("aeabi", [[((6, 8, 9, 10, 7)[k % 5], k % 100) for k in range(n)]])],
            "subsections": lambda: [(name(k), [[(6, k % 5)] * (k % 3) for _ in range(k % 4)]) for k in range(n)],
        }[what]()
        verify_attributes(e, vendors)
    return what, n


def do_note_types(cls, e, t):
    blob, meta = elfgen.build(cls, e, [sec(".note", type=7, data=note(e, b"GNU\0", b"abcd", t)), sec("x", type=1, data=note(e, b"No\0", b"", 1))])
    verify_notes(blob, [(".note", t, "GNU", "61626364")])
    return t


def do_note_sections(counts, names):
    want, secs, k = [], [], 0
    cls, e = BOTH[(sum(counts) + len(counts)) % 4]
    for i, (n, which) in enumerate(zip(counts, names)):
        name = (".note", ".note.b", ".a")[which]
        data = b""
        for j in range(n):
            k += 1
            data += note(e, b"N%d\0" % k, pattern(k, k), k)
            want.append((name, k, f"N{k}", pattern(k, k).hex()))
        secs.append(sec(name, type=7, data=data))
        secs.append(sec(f".s{i}"))
    blob, meta = elfgen.build(cls, e, secs)
    verify_notes(blob, want)
    return tuple(want)


# Comments -------------------------------------------------------------------------------------------------


def do_comments(seq):
    strings = [STRINGS[i] for i in seq]
    data = b"".join(s.encode("utf8") + b"\0" for s in strings)
    out = []
    cls, e = BOTH[len(seq) % 4]
    for terminated in (True, False):
        raw = data if terminated else data[:-1]
        blob, meta = elfgen.build(cls, e, [sec(".text"), sec(".comment", flags=0x30, data=raw), sec(".commentary", data=b"no\0")])
        want = "\n".join(s for s in strings if s) or None
        with elfs.both(blob) as passes:
            for how, ep in passes():
                check_eq(ep.comment, want, f"{how}: comment")
        out.append(want)
    return tuple(out)


def do_several(kinds):
    cls, e = BOTH[len(kinds) % 4]
    texts = [["", "a", "one\0two", "a\0\0b"][k] for k in kinds]
    secs = [sec(".text")]
    for i, t in enumerate(texts):
        secs.append(sec(".comment", flags=0x30, data=t.encode() + b"\0" * (i % 2) if t else b""))
        secs.append(sec(f".s{i}"))
    secs.append(sec(".ARM.attributes", type=0x70000003, flags=0, data=b"A"[: len(kinds) % 2]))
    blob, meta = elfgen.build(cls, e, secs)
    with elfs.both(blob) as passes:
        for how, ep in passes():
            check_eq(ep.comment, "\n".join(s for t in texts for s in t.split("\0") if s) or None, f"{how}: comment")
            check_eq(ep.arm_attributes, {}, f"{how}: attributes")
            check_eq(list(ep.notes), [], f"{how}: notes")
    return tuple(texts)


# ARM attributes -------------------------------------------------------------------------------------------


def uleb(v):
    out = b""
    while True:
        b, v = v & 0x7F, v >> 7
        out += bytes([b | (0x80 if v else 0)])
        if not v:
            return out


def kind_of(tag):
    if tag == 32:
        return "c"
    return TAGS[tag][1] if tag in TAGS else "us"[tag & 1]


def attr(tag, value):
    if tag == 32:
        return uleb(tag) + uleb(value[0]) + value[1].encode() + b"\0"
    return uleb(tag) + (uleb(value) if kind_of(tag) == "u" else value.encode() + b"\0")


def blob_of(e, vendors, scopes=None):
    """vendors: list of (name, [[(tag, value)..] per subsection]); scopes: (tag, numbers) of each subsection, if not all files"""
    w = "<I" if e == 1 else ">I"
    out = b"A"
    for name, subs in vendors:
        body = name.encode() + b"\0"
        for attrs in subs:
            raw = b"".join(attr(*a) for a in attrs)
            scope, numbers = scopes.pop(0) if scopes else (1, [])
            raw = b"".join(map(uleb, [*numbers, 0] if scope > 1 else [])) + raw
            body += bytes([scope]) + struct.pack(w, len(raw) + 5) + raw
        out += struct.pack(w, len(body) + 4) + body
    return out


def expected(vendors):
    out = {}
    for name, subs in vendors:
        out.setdefault(name, [])
        for attrs in subs:
            for tag, value in attrs:
                entry = TAGS.get(tag)
                out[name].append((tag, entry[0] if entry else None, value, None if tag == 20 else (entry[2] if entry else {}).get(value, value)))
    return out


def shown(res, want):
    out = {}
    for name, attrs in res.items():
        rows = []
        for i, a in enumerate(attrs):
            known = want.get(name, [])[i : i + 1]
            d = a.description
            if a.tag == 32 and known and known[0][0] == 32:
                flag, vendor = known[0][2]
                check(str(flag) in re.findall("[0-9]+", str(a.value)) and vendor in str(a.value), "Tag_compatibility %r: %r", (flag, vendor), a.value)
                rows.append(known[0])
                continue
            rows.append((a.tag, a.tag_name if a.tag in TAGS else None, a.value, None if a.tag == 20 else d.strip() if isinstance(d, str) and known and known[0][3] != a.value else d))
        out[name] = rows
    return out


def verify_attributes(e, vendors, scopes=None):
    from objutils.elf.arm import attributes

    raw = blob_of(e, vendors, scopes)
    want = expected(vendors)
    for buf in (raw, memoryview(raw), bytearray(raw)):
        res = attributes.parse(buf, "<" if e == 1 else ">")
        check_eq(shown(res, want), want, f"attributes ({type(buf).__name__})")
        check_eq(list(res), list(want), "order of vendors")
    if e == 1:
        check_eq(shown(attributes.parse(raw), want), want, "attributes, default byte order")
    return raw, want


C = [(0, ""), (1, "gnu"), (0, "ARM"), (6, "\x06\x0a"), (127, "x"), (128, "vendor" * 30), (65, ""), (1 << 32, "a b")]
U = [0, 1, 2, 3, 4, 12, 63, 64, 65, 127, 128, 129, 300, 16383, 16384, (1 << 32) - 1, 1 << 32, (1 << 64) - 1]


def do_tags(t):
    values = U if kind_of(t) == "u" else C if t == 32 else ["", "a", "ARM v6K", "x" * 200, "\x06\x0a", "\x7f"]
    for e in (1, 2):
        for v in values:
            verify_attributes(e, [("aeabi", [[(t, v)]])])
            verify_attributes(e, [("aeabi", [[(6, 10), (t, v), (5, "x")], [(t, v)]]), ("gnu", [[(t, v), (4, "y")]])])
    return t


def do_pairs(a):
    for b in sorted([*TAGS, 32, 33, 46, 128, 129]):
        for e in (1, 2):
            va = {"u": 1, "s": "v", "c": (1, "v")}[kind_of(a)]
            vb = {"u": 200, "s": "", "c": (0, "")}[kind_of(b)]
            verify_attributes(e, [("aeabi", [[(a, va), (b, vb), (a, va)]])])
    return a


def do_nesting(e, counts):
    names = ["aeabi", "gnu", "ARM"]
    vendors = []
    for i, n in enumerate(counts):
        vendors.append((names[i], [[(5, f"n{i}{j}"), (6, j), (128 + 2 * i, 300 * j)][: 1 + (i + j) % 3] if n != 3 or j != 1 else [] for j in range(n)]))
    raw, want = verify_attributes(e, vendors)
    # The same vendor again: its attributes follow.
    verify_attributes(e, vendors + [("aeabi", [[(7, 0x41)]])])
    return raw.hex()[:60]


def do_scopes(e, subs):
    attrs = [[(6, 10), (5, "x"), (9, i), (32, (i, "gnu"))][: 4 - i] for i in range(len(subs))]
    for cut in range(len(subs) + 1):
        vendors = [("aeabi", attrs[:cut]), ("gnu", attrs[cut:])]
        verify_attributes(e, vendors, [tuple(s) for s in subs])
    attrs[0] = []
    verify_attributes(e, [("aeabi", attrs)], [tuple(s) for s in subs])
    return tuple(s[0] for s in subs)


def do_meanings(t):
    for v in (*range(0, 32), 0x41, 0x4D, 0x52, 0x53, 128):
        for e in (1, 2):
            if TAGS[t][1] == "u":
                verify_attributes(e, [("aeabi", [[(t, v)]])])
            else:
                verify_attributes(e, [("aeabi", [[(t, chr(v) if 0 < v < 128 else "")]])])
    return t


def do_files(e, k):
    """All of it together, in files of any class; files without are empty."""
    vendors = [("aeabi", [[(5, "7-A"), (6, 10), (7, 0x41), (8, 1), (9, 2), (64 + k, 1 if kind_of(64 + k) == "u" else "s")]])]
    raw, want = blob_of(e, vendors), expected(vendors)
    for cls in (1, 2):
        secs = [sec(".text")]
        if k & 1:
            secs.append(sec(".ARM.attributes", type=0x70000003, flags=0, data=raw))
        if k & 2:
            secs.append(sec(".comment", data=b"one\0two\0"))
        if k & 4:
            secs.append(sec(".note", type=7, data=note(e, b"GNU\0", b"abc", 5)))
        if k & 8:
            secs.reverse()
        blob, meta = elfgen.build(cls, e, secs)
        with elfs.both(blob) as passes:
            for how, ep in passes():
                check_eq(shown(ep.arm_attributes, want), want if k & 1 else {}, f"{how}: attributes")
                check_eq(ep.comment, "one\ntwo" if k & 2 else None, f"{how}: comment")
                check_eq(notes_of(ep), [(".note", 5, "GNU", "616263")] if k & 4 else [], f"{how}: notes")
    return k
