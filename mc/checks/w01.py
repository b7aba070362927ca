"""W01: primitive DWARF encodings are decoded exactly and consume exactly their bytes."""

import io
import itertools

from mc import core
from mc.core import check_eq, expect_raises, pattern

ID = "W01"
LEVEL = "exploration"
RULE = (
    "All LEB128 byte sequences of up to 2 bytes and longer ones over boundary groups (padded ones included), every block length class "
    "at every form, every address size and byte order with single-bit patterns, string references to every offset; all truncations."
)
ASSUMPTIONS = ["32-bit DWARF", "the byte count prefix of a block fits its field"]

TAIL = b"\xa5\x5a\xff\x00"


def spaces(tier):
    def leb2():
        for first in range(256):
            yield [first]

    def lebn():
        groups = (0x00, 0x01, 0x3F, 0x40, 0x7F)
        for n in range(1, 5 if tier == "quick" else 7):
            for g in groups:
                yield [n, g]

    def leblong():
        for bits in (*range(1, 80), 127, 128, 129, 140, 141, 255, 256, 700, 1000, 2000) if tier == "quick" else (*range(1, 260), 700, 1000, 2000, 7000):
            yield [bits]

    def block():
        for name in ("Block1", "Block2l", "Block2b", "Block4l", "Block4b", "BlockUleb"):
            for n in (*range(0, 20), 127, 128, 129, 200, 254, 255, 256, 257, 300, 1000, 4095, 4096, 4097, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 1 << 20, 1 << 21):
                if (name == "Block1" and n > 255) or (name.startswith("Block2") and n > 65535):
                    continue
                yield [name, n]

    def address():
        for size in (1, 2, 4, 8):
            for e in (0, 1):
                yield [size, e]

    def strp():
        for e in (0, 1):
            for n in range(0, 5):
                yield [e, n]

    def bigstrp():
        for e in (0, 1):
            for at in (1, 127, 255, 256, 1000, 4095, 4096, 65534, 65535, 65536, 65537, 0x12345, (1 << 20) + 1):
                for n in (0, 1, 15, 16, 255, 256, 257, 1023, 1024, 4096, 70000):
                    yield [e, at, n]

    def streams():
        """Many values one after the other in one stream."""
        for k in (2, 17, 256, 1000):
            for kind in ("uleb", "sleb", "Block1", "BlockUleb", "Block2l", "Block4b", "address", "strp"):
                yield [k, kind]

    def lists():
        for n in range(0, 4 if tier == "quick" else 5):
            for first in range(len(LIST_NAMES) if n else 1):
                yield [n, first]
        for n in (16, 127, 128, 255, 256, 257, 1000, 5000):
            yield [n, -1]

    def bad():
        yield [0]

    return {"leb2": leb2, "lebn": lebn, "leblong": leblong, "block": block, "address": address, "strp": strp, "bigstrp": bigstrp, "streams": streams, "lists": lists, "bad": bad}


def run_case(kind, p):
    return globals()["do_" + kind](*p)


def enc():
    from objutils.dwarf import encoding

    return encoding


def uleb(data):
    v = 0
    for i, b in enumerate(data):
        v += (b % 128) * 128**i
        if b < 128:
            return v, i + 1
    return None


def sleb(data):
    r = uleb(data)
    if r is None:
        return None
    v, n = r
    if data[n - 1] & 0x40:
        v -= 128**n
    return v, n


def to_uleb(v):
    out = []
    while True:
        v, b = divmod(v, 128)
        out.append(b + (128 if v else 0))
        if not v:
            return bytes(out)


def to_sleb(v):
    n = 1
    while not -(1 << 7 * n - 1) <= v < 1 << 7 * n - 1:
        n += 1
    v &= (1 << 7 * n) - 1
    return bytes((v >> 7 * i & 0x7F) | (0x80 if i < n - 1 else 0) for i in range(n))


def parse(con, data, want, used, what):
    for tail in (b"", TAIL):
        stream = io.BytesIO(b"\x80" + data + tail)
        stream.seek(1)
        check_eq((con.parse_stream(stream), stream.tell() - 1), (want, used), f"{what} of {data[:20].hex()}")


def fails(con, data, what):
    expect_raises((Exception,), con.parse_stream, io.BytesIO(data), _what=f"truncated {what} {data[:20].hex()}")


def leb_case(data):
    for con, ref, what in ((enc().ULEB, uleb, "uleb"), (enc().SLEB, sleb, "sleb")):
        r = ref(data)
        if r is None:
            fails(con, data, what)
        else:
            stream = io.BytesIO(data + TAIL)
            check_eq((con.parse_stream(stream), stream.tell()), r, f"{what} of {data.hex()}")


def do_leb2(first):
    leb_case(bytes([first]))
    for second in range(256):
        leb_case(bytes([first, second]))
    return uleb(bytes([first, 1])), sleb(bytes([first, 0x7F]))


def do_lebn(n, g):
    """n continued groups, then every final byte."""
    out = []
    for mid in itertools.product((0x80, 0x81, 0xBF, 0xC0, 0xFF), repeat=n - 1):
        for last in (0x00, 0x01, 0x3F, 0x40, 0x41, 0x7E, 0x7F, 0x80):
            data = bytes([g | 0x80, *mid, last])
            leb_case(data)
            if last < 0x80:
                out.append(sleb(data)[0])
    return hash(tuple(out))


def do_leblong(bits):
    for base in (1 << bits, 1 << bits - 1, (1 << bits) - 1 & 0x5555555555555555555555555555555555):
        for d in (-1, 0, 1):
            v = base + d
            if v >= 0:
                check_eq(enc().ULEB.build(v), to_uleb(v), f"built uleb of {v}")
                parse(enc().ULEB, to_uleb(v), v, len(to_uleb(v)), "uleb")
                for cut in range(len(to_uleb(v))):
                    fails(enc().ULEB, to_uleb(v)[:cut], "uleb")
            for x in (v, -v):
                check_eq(enc().SLEB.build(x), to_sleb(x), f"built sleb of {x}")
                parse(enc().SLEB, to_sleb(x), x, len(to_sleb(x)), "sleb")
                for cut in range(len(to_sleb(x))):
                    fails(enc().SLEB, to_sleb(x)[:cut], "sleb")
    return bits


def do_block(name, n):
    con = getattr(enc(), name)
    body = pattern(n)
    prefix = {
        "Block1": lambda: bytes([n]),
        "Block2l": lambda: n.to_bytes(2, "little"),
        "Block2b": lambda: n.to_bytes(2, "big"),
        "Block4l": lambda: n.to_bytes(4, "little"),
        "Block4b": lambda: n.to_bytes(4, "big"),
        "BlockUleb": lambda: to_uleb(n),
    }[name]()
    parse(con, prefix + body, body, len(prefix) + n, name)
    check_eq(con.build(body), prefix + body, f"built {name}")
    check_eq(con.build(bytearray(body)), prefix + body, f"built {name}")
    for cut in {0, len(prefix) - 1, len(prefix), len(prefix) + n - 1, len(prefix) + n // 2}:
        if 0 <= cut < len(prefix) + n:
            fails(con, (prefix + body)[:cut], name)
    return n


def do_address(size, e):
    con = enc().Address(size, enc().Endianess(e))
    order = "big" if e else "little"
    values = {0, (1 << 8 * size) - 1} | {1 << i for i in range(8 * size)} | {(1 << 8 * size) - 1 ^ 1 << i for i in range(8 * size)}
    values |= {b << 8 * lane for lane in range(size) for b in range(0, 256, 5)}
    for v in sorted(values):
        data = v.to_bytes(size, order)
        parse(con, data, v, size, f"address of {size} bytes")
        check_eq(con.build(v), data, "built address")
    for cut in range(size):
        fails(con, bytes(cut), "address")
    other = enc().Address(size, enc().Endianess(1 - e))
    check_eq(con.parse(bytes(range(1, size + 1))), int.from_bytes(bytes(range(1, size + 1)), order), "address beside another one")
    check_eq(other.parse(bytes(range(1, size + 1))), int.from_bytes(bytes(range(1, size + 1)), "little" if e else "big"), "other address")
    return len(values)


def do_strp(e, n):
    out = []
    for letters in itertools.product(("a", "", "xyz", "\u00e4\u20ac"), repeat=n):
        blob = b"\0" + b"".join(s.encode() + b"\0" for s in letters) + b"\0" * (0 if n else 1)
        con = enc().StrP(blob, enc().Endianess(e))
        starts = [i for i in range(len(blob)) if blob[i] & 0xC0 != 0x80]
        for off in starts:
            want = blob[off : blob.index(b"\0", off)].decode()
            ref = off.to_bytes(4, "big" if e else "little")
            parse(con, ref, want, 4, f"string at {off} of {blob!r}")
            out.append(want)
        fails(con, (len(blob) + 5).to_bytes(4, "big" if e else "little"), "string beyond the section")
        fails(con, b"\0\0\0", "string reference")
    fails(enc().StrP(b"abc", enc().Endianess(e)), bytes(4), "unterminated string")
    return hash(tuple(out))


def do_bigstrp(e, at, n):
    order = "big" if e else "little"
    s = "".join(chr(0x21 + (i * 7 + i // 90) % 90) for i in range(n))
    blob = bytearray(pattern(at, 3).replace(b"\0", b"?"))
    blob[-1] = 0
    blob += s.encode() + b"\0tail\0"
    con = enc().StrP(bytes(blob), enc().Endianess(e))
    stream = io.BytesIO(at.to_bytes(4, order) + (at + n + 1).to_bytes(4, order) + (at + n // 2).to_bytes(4, order) + (at + n).to_bytes(4, order))
    check_eq([con.parse_stream(stream) for _ in range(4)], [s, "tail", s[n // 2 :], ""], f"strings at {at}")
    check_eq(stream.tell(), 16, "position")
    fails(con, (len(blob)).to_bytes(4, order), "string behind the section")
    fails(enc().StrP(bytes(blob[:-1]), enc().Endianess(e)), (at + n + 2).to_bytes(4, order), "unterminated string")
    return at, n


def do_streams(k, kind):
    E = enc()
    vals = [(i * i * 2654435761 + i) % (1 << (i * 5 % 67 + 1)) for i in range(k)]
    if kind == "uleb":
        con, items = E.ULEB, [(to_uleb(v), v) for v in vals]
    elif kind == "sleb":
        con, items = E.SLEB, [(to_sleb(v if i & 1 else -v), v if i & 1 else -v) for i, v in enumerate(vals)]
    elif kind == "address":
        con, items = E.Address(8, E.Endianess.Big), [(v.to_bytes(16, "big")[8:], v & (1 << 64) - 1) for v in vals]
    elif kind == "strp":
        blob = b"".join(b"s%d\0" % i for i in range(k))
        con, items = E.StrP(blob, E.Endianess.Little), [(blob.index(b"s%d\0" % i).to_bytes(4, "little"), f"s{i}") for i in reversed(range(k))]
    else:
        con = getattr(E, kind)
        head = {"Block1": lambda n: bytes([n]), "BlockUleb": to_uleb, "Block2l": lambda n: n.to_bytes(2, "little"), "Block4b": lambda n: n.to_bytes(4, "big")}[kind]
        items = [(head(v % 250) + pattern(v % 250, i), pattern(v % 250, i)) for i, v in enumerate(vals)]
    stream = io.BytesIO(b"".join(b for b, _ in items))
    at = 0
    for i, (b, want) in enumerate(items):
        got = con.parse_stream(stream)
        at += len(b)
        check_eq((got, stream.tell()), (want, at), f"{kind} number {i} in a row")
    expect_raises((Exception,), con.parse_stream, stream, _what=f"{kind} at the end of the data")
    return at


LIST_NAMES = ("a", "/usr/include", "\u00e4\u20ac.c", "x" * 300)
LIST_NUMBERS = (0, 1, 127, 128, 0x4000, 0x7FFFFFFF)


def do_lists(n, first):
    """Lists of directories and of files, as line tables hold them: up to the empty entry at their end, not further."""
    import time

    E = enc()
    if first < 0:
        every = [tuple(LIST_NAMES[i % 4] + str(i) for i in range(n))]
    else:
        every = [(LIST_NAMES[first], *rest)[:n] for rest in itertools.product(LIST_NAMES, repeat=max(n - 1, 0))]
    for names in every:
        data = b"".join(x.encode() + b"\0" for x in names) + b"\0"
        parse(E.ArrayOfCStrings(), data, list(names), len(data), f"{n} strings")
        check_eq(E.ArrayOfCStrings().build(list(names)), data, f"{n} strings built")
        for cut in {0, 1, 2, len(data) // 2, len(data) - 2, len(data) - 1}:
            if 0 <= cut < len(data) and data[:cut].decode("utf8", "ignore").encode() == data[:cut]:
                fails(E.ArrayOfCStrings(), data[:cut], f"{n} strings")
        for k in range(len(LIST_NUMBERS) if n < 100 else 2):
            nums = [tuple(LIST_NUMBERS[(k + i * j + j) % 6] for j in range(3)) for i in range(n)]
            data = b"".join(x.encode() + b"\0" + b"".join(to_uleb(v) for v in v3) for x, v3 in zip(names, nums)) + b"\0"
            for tail in (b"", TAIL):
                stream = io.BytesIO(b"\x80" + data + tail)
                stream.seek(1)
                got = E.FilenameSequence().parse_stream(stream)
                check_eq(stream.tell() - 1, len(data), f"bytes of {n} files")
                check_eq(
                    [(i, f.name, f.dir_index, f.last_modified, f.length) for i, f in got.items()],
                    [(i + 1, x, d, time.ctime(t), size) for i, (x, (d, t, size)) in enumerate(zip(names, nums))],
                    f"{n} files",
                )
            stream = io.BytesIO(data + data)
            one = E.FilenameSequence().parse_stream(stream)
            check_eq(E.FilenameSequence().parse_stream(stream), one, "the same files again")
    return n


def do_bad(_):
    for size in (0, 3, 5, 6, 7, 9, 16, -1):
        expect_raises((ValueError,), enc().Address, size, enc().Endianess.Little)
    for v in (-1, -128, -(1 << 70)):
        expect_raises((Exception,), enc().ULEB.build, v, _what="negative uleb")
    # present flags take no room
    stream = io.BytesIO(b"\x05")
    check_eq((enc().One.parse_stream(stream), stream.tell()), (1, 0), "present flag")
    return 0
