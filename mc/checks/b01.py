"""B01: binary reader: fixed width integers, LEB128 numbers and strings at every position."""

import io
import itertools

from mc import core
from mc.core import check, check_eq, expect_raises

ID = "B01"
LEVEL = "model_checking"
RULE = (
    "All LEB128 encodings of 1 and 2 bytes, 3 byte and longer ones over boundary groups incl. padded ones, all 16 bit patterns, "
    "single-bit and boundary patterns of wider numbers in every byte order; explicit-state search over histories of reads on one "
    "buffer in lockstep with a cursor model."
)
ASSUMPTIONS = ["the position after a failed read is unspecified, a history ends there or continues after repositioning"]

ORDERS = "<>@"
FIXED = {f"{s}{n}": (n // 8, s == "s") for s in "us" for n in (8, 16, 32, 64)}


def reader(data, order="<"):
    from objutils.readers import PlainBinaryReader

    order = {"<": PlainBinaryReader.LITTLE_ENDIAN, ">": PlainBinaryReader.BIG_ENDIAN}.get(order, order)
    return PlainBinaryReader(io.BytesIO(bytes(data)), order)


def fixed(data, size, signed, order):
    import sys

    little = order == "<" or order == "@" and sys.byteorder == "little"
    v = 0
    for i in range(size):
        v |= data[i] << 8 * (i if little else size - 1 - i)
    return v - (1 << 8 * size) if signed and v >> (8 * size - 1) else v


def leb(data, signed):
    v = 0
    for i, b in enumerate(data):
        v += (b & 0x7F) << 7 * i
        if not b & 0x80:
            if signed and b & 0x40:
                v -= 1 << 7 * (i + 1)
            return v, i + 1
    return None


def spaces(tier):
    depth = 3 if tier == "quick" else 4

    def leb1():
        for first in range(256):
            yield [first]

    def leb3():
        groups = (0, 1, 0x3F, 0x40, 0x41, 0x7E, 0x7F)
        for n in (3, 4, 5) if tier == "quick" else (3, 4, 5, 6):
            for first in groups:
                yield [n, first]

    def long():
        for n in range(1, 24):
            yield [n]

    def longer():
        for n in (30, 31, 32, 33, 36, 37, 63, 64, 100, 128, 255, 256, 300):
            yield [n]

    def text():
        for n in (15, 16, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536):
            for tail in (0, 1, 5):
                yield [n, tail]

    def far():
        for at in (126, 127, 128, 254, 255, 256, 1023, 1024, 4093, 4095, 4096, 8191, 65534, 65535, 65536, 70000, 1 << 20):
            for order in ORDERS:
                yield [at, order]

    def u16():
        for hi in range(256):
            yield [hi]

    def wide():
        for name in FIXED:
            for order in ORDERS:
                yield [name, order]

    def strings():
        for n in range(0, 6):
            for t in itertools.product((1, 0x41, 0x7F, 0x80, 0xFF), repeat=n if n < 5 else 2):
                yield [list(t)]
        for c in range(1, 256):
            yield [[c]]

    def history():
        for b in range(len(BUFFERS)):
            for order in ORDERS:
                yield [b, order, depth]

    return {"leb1": leb1, "leb3": leb3, "long": long, "longer": longer, "text": text, "far": far, "u16": u16, "wide": wide, "strings": strings, "history": history}


def run_case(kind, p):
    return globals()["do_" + kind](*p)


def both(enc, tail=b"\xaa\x55"):
    for signed, op in ((False, "uleb"), (True, "sleb")):
        want, used = leb(enc, signed)
        for pre in (b"", b"\x80\x7f\xff"):
            for order in "<>":
                r = reader(pre + enc + tail, order)
                r.pos = len(pre)
                check_eq(getattr(r, op)(), want, f"{op} of {enc.hex()}")
                check_eq(r.pos, len(pre) + used, f"position after {op} of {enc.hex()}")


def do_leb1(first):
    if first < 128:
        both(bytes([first]))
    else:
        for second in range(128):
            both(bytes([first, second]))
    return first


def do_leb3(n, first):
    groups = (0, 1, 0x3F, 0x40, 0x7F)
    for mid in itertools.product(groups, repeat=n - 2):
        for last in range(128) if n == 3 else (0, 1, 0x3F, 0x40, 0x41, 0x7F):
            both(bytes([first | 0x80, *(m | 0x80 for m in mid), last]))
    return n, first


def do_longer(n):
    """Numbers of n groups: every group counts, and each only once."""
    from mc.core import pattern

    groups = [x & 0x7F for x in pattern(n, 3)]
    for last in (0, 1, 0x3F, 0x40, 0x7F):
        enc = bytes(g | 0x80 for g in groups) + bytes([last])
        both(enc)
        for i in {0, 1, n // 2, n - 1}:
            both(bytes(x ^ 0x7F if k == i else x for k, x in enumerate(enc)))
    both(b"\x80" * n + b"\x01")
    both(b"\xff" * n + b"\x7f")
    both(b"\x80" * n + b"\0")
    return n


def do_text(n, tail):
    """Long strings, followed by others."""
    from mc.core import pattern

    data = bytes(x or 1 for x in pattern(n))
    buf = b"\x11" + data + b"\0" + b"\x80" * tail + b"\0" + b"\x22"
    r = reader(buf)
    check_eq(r.u8(), 0x11, "first byte")
    check_eq(r.asciiz(), data.decode("latin1"), f"string of {n}")
    check_eq(r.pos, n + 2, "position")
    check_eq(r.asciiz(), "\x80" * tail, "next string")
    check_eq((r.u8(), r.pos, r.size), (0x22, len(buf), len(buf)), "rest")
    r.pos = 1 + n // 2
    check_eq(r.asciiz(), data[n // 2 :].decode("latin1"), "end of the string")
    expect_raises((Exception,), reader(data).asciiz, _what="unterminated string")
    return n, tail


def do_far(at, order):
    """Values at far positions."""
    from mc.core import pattern

    part = bytes([0x81, 0x92, 0x23, 0xFE, 0x85, 0x46, 0xC7, 0x38, 0x00, 0x9A])
    buf = pattern(at, 5) + part
    r = reader(buf, order)
    check_eq(r.size, len(buf), "size")
    for name, (size, signed) in FIXED.items():
        r.pos = at
        check_eq((getattr(r, name)(), r.pos), (fixed(part, size, signed, order), at + size), f"{name} at {at}")
        r.pos = at - 1
        check_eq((getattr(r, name)(), r.pos), (fixed(buf[at - 1 :], size, signed, order), at - 1 + size), f"{name} at {at - 1}")
    for op in ("uleb", "sleb"):
        for k in range(8):
            r.pos = at + k
            want, used = leb(part[k:], op == "sleb")
            check_eq((getattr(r, op)(), r.pos), (want, at + k + used), f"{op} at {at + k}")
    r.pos = at
    check_eq((r.asciiz(), r.pos), (part[:8].decode("latin1"), at + 9), "string")
    check_eq((r.next_byte(), r.pos), (0x9A, at + 10), "byte")
    expect_raises((Exception,), r.u8, _what="byte behind the end")
    r.reset()
    check_eq((r.pos, r.u8()), (0, buf[0]), "after reset")
    return at


def do_long(n):
    """Powers of two around the n-th group, minimal and padded encodings, every truncation."""
    for base in (1 << 7 * n, 1 << (7 * n - 1), 1 << (7 * n - 2)):
        for d in (-1, 0, 1):
            for v in (base + d, -(base + d)):
                if v >= 0:
                    enc, x = [], v
                    while True:
                        enc.append(x & 0x7F)
                        x >>= 7
                        if not x:
                            break
                    for pad in range(3):
                        e = [b | 0x80 for b in enc] + [0x80] * pad
                        e[-1] &= 0x7F
                        r = reader(bytes(e))
                        check_eq((r.uleb(), r.pos), (v, len(e)), f"uleb of {bytes(e).hex()}")
                        for cut in range(len(e)):
                            expect_raises((Exception,), reader(bytes(e)[:cut]).uleb, _what=f"truncated uleb {bytes(e)[:cut].hex()}")
                enc, x = [], v
                while True:
                    b = x & 0x7F
                    x >>= 7
                    enc.append(b)
                    if (x == 0 and not b & 0x40) or (x == -1 and b & 0x40):
                        break
                for pad in range(3):
                    e = [b | 0x80 for b in enc] + [0xFF if v < 0 else 0x80] * pad
                    e[-1] &= 0x7F
                    r = reader(bytes(e))
                    check_eq((r.sleb(), r.pos), (v, len(e)), f"sleb of {bytes(e).hex()}")
                    for cut in range(len(e)):
                        expect_raises((Exception,), reader(bytes(e)[:cut]).sleb, _what=f"truncated sleb {bytes(e)[:cut].hex()}")
    return n


def do_u16(hi):
    for lo in range(256):
        data = bytes([hi, lo])
        for order in ORDERS:
            for name in ("u16", "s16"):
                check_eq(getattr(reader(data, order), name)(), fixed(data, 2, name[0] == "s", order), f"{name} {order} of {data.hex()}")
    for name in ("u8", "s8"):
        check_eq(getattr(reader([hi]), name)(), fixed([hi], 1, name[0] == "s", "<"), f"{name} of {hi}")
    check_eq(reader([hi]).next_byte(), hi, "next_byte")
    return hi


def do_wide(name, order):
    size, signed = FIXED[name]
    pats = [0, (1 << 8 * size) - 1, 1 << (8 * size - 1), (1 << (8 * size - 1)) - 1]
    pats += [1 << i for i in range(8 * size)] + [((1 << 8 * size) - 1) ^ 1 << i for i in range(8 * size)]
    pats += [b << 8 * lane for lane in range(size) for b in range(256)]
    for p in pats:
        data = p.to_bytes(size, "little")
        r = reader(b"\x11" + data + b"\x22", order)
        r.pos = 1
        check_eq(getattr(r, name)(), fixed(data, size, signed, order), f"{name} {order} of {data.hex()}")
        check_eq(r.pos, 1 + size, f"position after {name}")
    for cut in range(size):
        expect_raises((Exception,), getattr(reader(bytes(cut), order), name), _what=f"{name} of {cut} bytes")
    return len(pats)


def do_strings(chars):
    data = bytes(chars)
    want = "".join(chr(c) for c in data)
    for tail in (b"", b"abc\0"):
        r = reader(b"\0" + data + b"\0" + tail)
        check_eq(r.size, len(data) + 2 + len(tail), "size")
        check_eq(r.asciiz(), "", "empty string")
        check_eq((r.asciiz(), r.pos), (want, len(data) + 2), f"asciiz of {data!r}")
        if tail:
            check_eq(r.asciiz(), "abc", "next string")
    expect_raises((Exception,), reader(data).asciiz, _what="unterminated string")
    return want


BUFFERS = [
    bytes([0x80, 0x80, 0x01, 0xFF, 0x7F, 0x00, 0x41, 0x42, 0x00, 0xFE, 0xFF, 0x3F]),
    bytes([0x7F, 0x40, 0xC0, 0x00, 0x81, 0x82, 0x83, 0x04]),
    bytes(range(0xF0, 0x100)) + bytes([0, 1, 2]),
    b"",
]
OPS = [*FIXED, "uleb", "sleb", "asciiz", "next_byte", "reset", "pos0", "pos1", "pos3", "end"]


def do_history(b, order, depth):
    buf = BUFFERS[b]

    def make():
        return [reader(buf, order), 0]

    def model(op, pos):
        """(value, new position) or None if the read must fail."""
        rest = buf[pos:]
        if op == "reset":
            return None, 0
        if op.startswith("pos"):
            return None, int(op[3:])
        if op == "end":
            return None, len(buf)
        if op == "next_byte":
            op = "u8"
        if op in FIXED:
            size, signed = FIXED[op]
            return (fixed(rest, size, signed, order), pos + size) if len(rest) >= size else None
        if op == "asciiz":
            i = rest.find(b"\0")
            return (rest[:i].decode("latin1"), pos + i + 1) if i >= 0 else None
        r = leb(rest, op == "sleb")
        return (r[0], pos + r[1]) if r else None

    def events(pair):
        return OPS

    def step(pair, op):
        r, pos = pair
        want = model(op, pos)
        if op == "reset":
            r.reset()
        elif op.startswith("pos"):
            r.pos = int(op[3:])
        elif op == "end":
            r.pos = r.size
        elif want is None:
            expect_raises((Exception,), getattr(r, op), _what=f"{op} at {pos}")
            r.pos = pos  # unspecified after a failure
            return
        else:
            check_eq(getattr(r, op)(), want[0], f"{op} at {pos}")
        check_eq(r.pos, want[1], f"position after {op}")
        check_eq(r.size, len(buf), "size")
        pair[1] = want[1]

    return core.bfs(make, events, step, lambda p: p[1], depth)
