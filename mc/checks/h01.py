"""H01: a hexdump shows exactly the content of the image."""

import io
import itertools
import re

from mc import core
from mc.core import check, check_eq, pattern

ID = "H01"
LEVEL = "exploration"
RULE = (
    "All sequences of up to 6 (8) rows over 3 row contents x lengths of the last row x start addresses, all pairs of rows of 8 two-valued lanes, one-bit differences, "
    "every byte value in every "
    "column, multi section images; the dump is parsed by an independent parser which expands repeated rows and checks both columns."
)
ASSUMPTIONS = ["addresses are shown modulo 2^64"]

ROW = re.compile(r"^((?:[0-9a-f]{8}){1,2})  ((?:[0-9a-f]{2} ){0,16}) *\|(.{16})\|$", re.S)


def spaces(tier):
    depth = 6 if tier == "quick" else 8

    def rows():
        for n in range(0, depth + 1):
            for seq in itertools.product(range(3), repeat=n):
                for last in (0, 1, 15):
                    yield [list(seq), last, 0x1000]
                for start in (0, 0xFFFFFFF0, 7, 0xFFFFFFFF80000000, 0xFFFFFFFD8) if n == 3 else ():
                    yield [list(seq), 5, start]

    def lengths():
        for n in range(1, 130):
            for start in (0, 0x10, 0x1003, 0xFFFFFFFF, 0xFFFFFFC0, 1 << 32, 0xFFFFFFFF81000000, (1 << 64) - n):
                for seed in (None, 1):
                    yield [n, start, seed]

    def values():
        for v in range(256):
            yield [v]

    def multi():
        for lens in itertools.product((1, 16, 17, 48), repeat=3):
            for same in (False, True):
                yield [list(lens), same]

    def row_pairs():
        """All ordered pairs of rows of 8 double byte lanes over two values, all one-byte differences, all rotations."""
        for x in range(256):
            yield ["lanes", x]
        for x in range(16):
            yield ["single", x]
            yield ["rotate", x]
        for tail in range(1, 17):
            yield ["tail", tail]

    def long():
        """Many rows, long runs of equal rows, addresses running over every digit."""
        for n in (254, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 100000, 200001):
            for start in (0, 0xFFF0, 0xFFFF7, 0xFFFFFF00, 0xFFFFF000, 0x1FFFFF007, 0x8000000000000000):
                for kind in ("pattern", "same", "blocks", "alternate", "walk", "pairs"):
                    yield [n, start, kind]

    def many():
        for k in (2, 9, 10, 11, 16, 17, 99, 100, 255, 256, 257, 1000, 1001):
            for n in (1, 16, 33, 80):
                for what in ("same", "pattern"):
                    yield [k, n, what]

    def again():
        """Dumps of the same and of other sections, images and sinks one after the other, and with a refused one in between."""
        for seq in itertools.product(range(5), repeat=3):
            yield [list(seq)]

    return {"long": long, "many": many, "again": again, "row_pairs": row_pairs, "rows": rows, "lengths": lengths, "values": values, "multi": multi}


def parse(text, start, length):
    """Content shown by one section's dump."""
    lines = text.split("\n")
    check_eq(lines[-1], "", "dump ends with a line end")
    check_eq(lines[-4], "-" * 15, "rule")
    check_eq(lines[-3].strip(), f"{length} bytes", "byte count")
    check_eq(lines[-2], "-" * 15, "rule")
    out = bytearray()
    prev = None
    star = False
    for line in lines[:-4]:
        if line.strip() == "*":
            check(prev is not None and len(prev) == 16 and not star, "misplaced elision")
            star = True
            continue
        m = ROW.match(line)
        check(m is not None, "malformed row %r", line)
        addr = int(m[1], 16)
        row = bytes.fromhex(m[2])
        check_eq(line.index("|"), len(m[1]) + 2 + 16 * 3 + 1, "column of the text")
        offset = (addr - start) % (1 << 64)
        if star:
            check(offset > len(out) and (offset - len(out)) % 16 == 0, "elision up to %#x", addr)
            out += prev * ((offset - len(out)) // 16)
            star = False
        check_eq(offset, len(out), f"address of row {line!r}")
        check(len(row) == 16 or line is lines[-5], "short row in the middle")
        want = "".join(chr(b) if 0x20 <= b < 0x7F else "." for b in row).ljust(16)
        check_eq(m[3], want, "text column")
        out += row
        prev = row
    check(not star, "elision at the end")
    return bytes(out)


def dump_section(start, data):
    from objutils import Section

    fp = io.StringIO()
    Section(start, data).hexdump(fp)
    text = fp.getvalue()
    check_eq(parse(text, start, len(data)), data, f"content shown for {data.hex()} at {start:#x}")
    return text


def run_case(kind, p):
    return globals()["do_" + kind](*p)


CONTENT = [bytes(16), b"\xff" * 16, bytes(15) + b"\x01"]


def do_rows(seq, last, start):
    data = b"".join(CONTENT[i] for i in seq) + CONTENT[seq[-1] if seq else 0][:last]
    if not data:
        return "empty"
    return dump_section(start, data).count("*")


def lane_row(x, a=0x00, b=0xFF):
    return b"".join(bytes([b if x >> i & 1 else a]) * 2 for i in range(8))


def do_row_pairs(what, x):
    n = 0

    def show(*rows):
        nonlocal n
        n += dump_section(0x1000, b"".join(rows)).count("*")

    if what == "lanes":
        one = lane_row(x)
        for y in range(256):
            other = lane_row(y)
            show(one, other)
            show(one, one, other, other)
    elif what == "single":
        base = [bytes(16), b"\xff" * 16, pattern(16, 3)]
        for row in base:
            for bit in range(8):
                other = bytearray(row)
                other[x] ^= 1 << bit
                show(row, bytes(other))
                show(bytes(other), row, row)
                show(row, row, bytes(other), bytes(other), row)
    elif what == "rotate":
        for row in (pattern(16, 7), bytes([1, 1, 2, 2] * 4), bytes(range(16)), bytes([0, 0, 0, 1] * 4)):
            show(row, row[x:] + row[:x], row)
    else:
        for row in (bytes(16), b"\xff" * 16, pattern(16, 7), bytes([0, 1] * 8), bytes([5]) + bytes(14) + bytes([5])):
            for other in (bytes(16), row, bytes([row[0]]) * 16, row[::-1]):
                show(row, other[:x])
                show(row, row, other[:x])
                show(row, other, other, other[:x])
    return n


def do_lengths(n, start, seed):
    return len(dump_section(start, bytes(n) if seed is None else pattern(n, seed)))


def do_values(v):
    for col in range(16):
        data = bytearray(pattern(32, 5))
        data[col] = data[31 - col] = v
        dump_section(0x2000, bytes(data))
    return dump_section(0, bytes([v]) * 64)


def do_long(n, start, kind):
    if kind == "pattern":
        data = pattern(n, 1)
    elif kind == "same":
        data = b"\x5a" * n
    elif kind == "blocks":
        data = b"".join(bytes([i & 255]) * (16 * (1 + i % 40)) for i in range(n // 300 + 1))[:n]
    elif kind in ("walk", "pairs"):  # neighbouring rows (pairs of rows) differ in one byte, in one bit
        row = bytearray(pattern(16, 9))
        out = bytearray()
        for i in range(n // 16 + 1):
            if kind == "walk" or i % 3 != 1:
                row[(i * 5) % 16] ^= 1 << i // 16 % 8
            out += row
        data = bytes(out[:n])
    else:
        data = (b"\0" * 16 + b"\xff" * 16 + b"\0" * 32 + b"\xff" * 48) * (n // 112 + 1)
        data = data[:n]
    return dump_section(start, data).count("*")


def dump_image(secs):
    from objutils import Image, Section

    img = Image([Section(*s) for s in secs])
    fp = io.StringIO()
    img.hexdump(fp)
    parts = re.split(r"\nSection #(\d{4,})\n-+\n", fp.getvalue())
    check_eq(parts[0], "", "text before the first section")
    check_eq(parts[1::2], [f"{i:04d}" for i in range(len(secs))], "section numbers")
    for (s, d), text in zip(secs, parts[2::2]):
        check_eq(parse(text, s, len(d)), d, "section content")
    check_eq([(s.start_address, bytes(s.data)) for s in img], secs, "image after dumping")
    return fp.getvalue()


def do_many(k, n, what):
    secs = [(i * (n + 3), b"\x11" * n if what == "same" else pattern(n, i)) for i in range(k)]
    return hash(dump_image(secs))


def do_again(seq):
    from objutils import Section

    class Broken(io.StringIO):
        def write(self, s):
            if self.tell() > 100:
                raise OSError(28, "injected")
            return super().write(s)

    blocks = [b"\0" * 80, b"\0" * 16, b"\xff" * 40, pattern(33, 1)]
    sections = [Section(0x1000, b) for b in blocks]
    shown = []
    for i in seq:
        if i == 4:
            try:
                sections[0].hexdump(Broken())
            except OSError:
                pass
            continue
        fp = io.StringIO()
        sections[i].hexdump(fp)
        check_eq(parse(fp.getvalue(), 0x1000, len(blocks[i])), blocks[i], f"section {i} in {seq}")
        shown.append(fp.getvalue())
        dump_image([(0, blocks[i]), (0x100, blocks[i]), (0x200, blocks[i])])
    return hash(tuple(shown))


def do_multi(lens, same):
    from objutils import Image, Section

    secs = []
    a = 0x100
    for i, n in enumerate(lens):
        secs.append((a, bytes([0x55]) * n if same else pattern(n, i)))
        a += n + 5
    img = Image([Section(*s) for s in secs])
    fp = io.StringIO()
    img.hexdump(fp)
    parts = re.split(r"\nSection #(\d{4})\n-+\n", fp.getvalue())
    check_eq(parts[0], "", "text before the first section")
    check_eq(parts[1::2], [f"{i:04d}" for i in range(len(secs))], "section numbers")
    for (s, d), text in zip(secs, parts[2::2]):
        check_eq(parse(text, s, len(d)), d, "section content")
    check_eq([(s.start_address, bytes(s.data)) for s in img], secs, "image after dumping")
    return fp.getvalue()
