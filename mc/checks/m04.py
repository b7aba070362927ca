"""M04: strings, numpy arrays and searches."""

import itertools

from mc.core import check, check_eq, expect_raises, pattern
from mc.refmem import snap

ID = "M04"
LEVEL = "exploration"
RULE = (
    "All string lengths x placements x section sizes x encodings x characters; all numpy element types x byte orders x shapes "
    "x memory layouts; every search pattern over a two letter alphabet in every text up to a length; compared with "
    "definitions written without the library."
)
ASSUMPTIONS = ["strings do not contain the NUL character", "search patterns are literals"]


def spaces(tier):
    def strings():
        for enc in ("ascii", "latin1", "utf-8", "cp1252"):
            for n in range(0, 20):
                for off in (0, 1, 7):
                    for slack in range(-2, 3):
                        yield [enc, n, off, slack]

    def wide():
        """UTF-16 and UTF-32: zero bytes within and across characters, every placement and length."""
        top = 4 if tier == "quick" else 5
        for enc in WIDE:
            for n in range(top):
                for idx in itertools.product(range(len(WIDE_CHARS)), repeat=n):
                    yield [enc, list(idx)]

    def wide_scans():
        """Texts of bytes 0 and 0x41, read from every offset."""
        for enc in ("utf-16-le", "utf-16-be", "utf-32-le", "utf-32-be"):
            for n in range(1, 9 if tier == "quick" else 12):
                for bits in itertools.product((0, 1), repeat=n):
                    yield [enc, list(bits)]

    def chars():
        for c in range(1, 256):
            yield ["latin1", c]
        for c in [*range(1, 0x500), 0x7FF, 0x800, 0x20AC, 0xFFFD, 0x10000, 0x1F600, 0x10FFFF]:
            if not 0xD800 <= c < 0xE000:
                yield ["utf-8", c]

    def scans():
        """Terminator at every position (or missing), reading from every offset, with every explicit length."""
        for n in range(1, 12 if tier == "quick" else 16):
            for nul in (*range(n), None):
                for start in range(n):
                    yield [n, nul, start]

    def ndarrays():
        types = ["uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float32", "float64"]
        shapes = [[1], [2], [5], [1, 1], [2, 3], [3, 2], [1, 4], [4, 1], [2, 2, 2], [2, 3, 4], [1, 2, 1, 3]]
        for t in types:
            for o in ("le", "be"):
                for s in shapes:
                    for layout in ("C", "F", "strided", "reversed"):
                        for order in (None, "F"):
                            yield [t, o, s, layout, order]

    def nd_bounds():
        for t, size in (("uint8", 1), ("uint16", 2), ("float64", 8)):
            for n in range(1, 26):
                for off in range(-2, n + 1):
                    yield [t, size, n, off]

    def finds():
        top = 9 if tier == "quick" else 12
        pats = [p for k in (1, 2, 3, 4) for p in itertools.product(b"ab", repeat=k)]
        for n in range(0, top):
            for text in itertools.product(b"ab", repeat=n):
                yield [list(text), 0x100]
        for b in range(256):
            yield [[b, 0x55, b], 0xFFFFFFF0]

    def long_strings():
        for enc in ("ascii", "latin1", "utf-8", "cp1252"):
            for n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536):
                for slack in (-1, 0, 1, 300):
                    yield [enc, n, slack]

    def shapes():
        for s in ([255], [256], [257], [300, 3], [17, 17], [16, 16, 16], [1, 300], [300, 1], [2, 1, 3, 1, 2], [2, 2, 2, 2, 2, 2], [65536], [0], [0, 3]):
            for t in ("uint8", "int16", "uint32", "int64", "float64"):
                for o in ("le", "be"):
                    for layout in ("C", "F"):
                        yield [t, o, s, layout, None]

    def far_finds():
        for edge in (64, 255, 256, 1000, 1024, 4096, 8192, 65536):
            for k in (1, 2, 3, 16, 64, 300):
                for a in (0, 0xFFFFFFF0):
                    yield [edge, k, a]

    def all_bytes():
        for b in range(256):
            yield [b]

    def places():
        for gap in (0, 1):
            for lens in itertools.product((1, 2, 5, 9), repeat=3):
                yield [gap, list(lens)]

    return {"wide": wide, "wide_scans": wide_scans, "long_strings": long_strings, "shapes": shapes, "far_finds": far_finds, "all_bytes": all_bytes, "places": places, "strings": strings, "chars": chars, "scans": scans, "ndarrays": ndarrays, "nd_bounds": nd_bounds, "finds": finds}


def objs(base, buf):
    from objutils import Image, Section

    return (Section(base, buf), Image([Section(base, buf)]))


def view(obj):
    from objutils import Section

    return bytes(obj.data) if isinstance(obj, Section) else snap(obj)[0][1]


SAMPLE = {"ascii": "Az09 ~!", "latin1": "Aä\xffz\x80", "utf-8": "xä€😀", "cp1252": "€œz"}


WIDE = ("utf-16-le", "utf-16-be", "utf-16", "utf-32-le", "utf-32-be", "utf-32", "UTF_16LE", "u16", "U32")
WIDE_CHARS = "A\u0100\u0141\u4100\u20ac\U00010000\U0010ff00"


def run_case(kind, p):
    from objutils.exceptions import InvalidAddressError

    base = 0x1000
    if kind == "strings":
        enc, n, off, slack = p
        s = "".join(SAMPLE[enc][i % len(SAMPLE[enc])] for i in range(n))
        raw = s.encode(enc) + b"\0"
        size = off + len(raw) + slack
        if size < 1:
            return None
        buf = bytes((x or 1) for x in pattern(size, n))
        for obj in objs(base, buf):
            if slack < 0:
                if off >= size:
                    continue
                expect_raises((InvalidAddressError,), obj.write_string, base + off, s, enc, _what=f"string of {len(raw)} bytes into {size - off}")
                check_eq(view(obj), buf, "bytes after a refused write_string")
                continue
            obj.write_string(base + off, s, enc)
            check_eq(view(obj), buf[:off] + raw + buf[off + len(raw) :], f"bytes after write_string({s!r}, {enc})")
            check_eq(obj.read_string(base + off, enc), s, "string read back")
            check_eq(obj.read_string(base + off, encoding=enc, length=len(raw) - 1), s, "string read back with length")
        return raw
    if kind == "wide":
        enc, idx = p
        s = "".join(WIDE_CHARS[i] for i in idx)
        width = 4 if "32" in enc else 2
        body = s.encode(enc)
        raw = body + bytes(width)
        for off in range(4):
            for slack in (-width, -1, 0, 1, 5):
                size = off + len(raw) + slack
                if size <= off:
                    continue
                buf = bytes((x or 1) for x in pattern(size, off))
                for obj in objs(base, buf):
                    if slack < 0:
                        expect_raises((InvalidAddressError,), obj.write_string, base + off, s, enc, _what=f"string of {len(raw)} bytes into {size - off}")
                        check_eq(view(obj), buf, "bytes after a refused write_string")
                        continue
                    obj.write_string(base + off, s, encoding=enc)
                    check_eq(view(obj), buf[:off] + raw + buf[off + len(raw) :], f"bytes after write_string({s!r}, {enc})")
                    check_eq(obj.read_string(base + off, encoding=enc), s, f"string read back ({enc})")
                    check_eq(obj.read_string(base + off, encoding=enc, length=len(body)), s, f"string read back with length ({enc})")
        return raw
    if kind == "wide_scans":
        enc, bits = p
        width = 4 if "32" in enc else 2
        buf = bytes(0x41 * b for b in bits)
        for start in range(len(buf)):
            units = [buf[i : i + width] for i in range(start, len(buf), width)]
            want = b"".join(itertools.takewhile(lambda u: u != bytes(width), units))
            terminated = bytes(width) in units
            try:
                text = want.decode(enc)
            except UnicodeDecodeError:
                text = None  # No valid text.
            for obj in objs(base, buf):
                if terminated and text is not None:
                    check_eq(obj.read_string(base + start, encoding=enc), text, f"{enc} string at {start} of {buf!r}")
                else:
                    expect_raises((TypeError, InvalidAddressError, ValueError), obj.read_string, base + start, encoding=enc, _what="unterminated or invalid string")
        return buf
    if kind == "chars":
        enc, c = p
        s = "<" + chr(c) + ">"
        raw = s.encode(enc) + b"\0"
        for obj in objs(base, b"\xaa" * 16):
            obj.write_string(base + 2, s, encoding=enc)
            check_eq(view(obj), (b"\xaa\xaa" + raw).ljust(16, b"\xaa"), "bytes")
            check_eq(obj.read_string(base + 2, encoding=enc), s, "string")
            if enc == "latin1":
                check_eq(obj.read_string(base + 2), s, "default encoding")
        return raw
    if kind == "scans":
        n, nul, start = p
        buf = bytearray(0x41 + i for i in range(n))
        if nul is not None:
            buf[nul] = 0
        buf = bytes(buf)
        for obj in objs(base, buf):
            tail = buf[start:]
            if 0 in tail:
                check_eq(obj.read_string(base + start), tail[: tail.index(0)].decode(), f"string at {start} of {buf!r}")
            else:
                expect_raises((TypeError, InvalidAddressError, ValueError), obj.read_string, base + start, _what="unterminated string")
            for length in range(0, n - start + 3):
                if start + length <= n:
                    check_eq(obj.read_string(base + start, length=length), tail[:length].decode("latin1"), f"{length} characters at {start}")
                else:
                    expect_raises((InvalidAddressError,), obj.read_string, base + start, length=length, _what="string beyond the section")
            expect_raises((InvalidAddressError,), obj.read_string, base - 1, length=1, _what="string before the section")
            for length in (-2, -3, -n):
                if length < -1:
                    expect_raises((InvalidAddressError, ValueError), obj.read_string, base + start, length=length, _what=f"string of length {length}")
        return buf
    if kind == "long_strings":
        enc, n, slack = p
        sample = SAMPLE[enc] + "".join(chr(0x21 + i) for i in range(90))
        s = "".join(sample[i % len(sample)] for i in range(n))
        raw = s.encode(enc) + b"\0"
        off = 3
        buf = bytes((x or 1) for x in pattern(off + len(raw) + slack, n))
        for obj in objs(base, buf):
            if slack < 0:
                expect_raises((InvalidAddressError,), obj.write_string, base + off, s, enc, _what=f"string of {len(raw)} bytes")
                check(view(obj) == buf, "bytes after a refused write_string")
                expect_raises((TypeError, InvalidAddressError, ValueError), obj.read_string, base, enc, _what="unterminated string")
                continue
            obj.write_string(base + off, s, enc)
            check(view(obj) == buf[:off] + raw + buf[off + len(raw) :], "bytes after writing a string of %d (%s)", n, enc)
            check_eq(obj.read_string(base + off, enc), s, "string read back")
            check_eq(obj.read_string(base + off + len(raw) - 2, enc if enc != "utf-8" else "latin1"), raw[-2:-1].decode(enc if enc != "utf-8" else "latin1"), "end of the string")
            check_eq(obj.read_string(base + off, encoding=enc, length=len(raw) - 1), s, "string read back with length")
            expect_raises((InvalidAddressError,), obj.read_string, base + off, encoding=enc, length=len(raw) + slack + 1, _what="string beyond the section")
        return hash(raw)
    if kind == "far_finds":
        edge, k, a = p
        from objutils import Section
        import re

        pat = bytes(0x80 | (i * 7 & 0x7F) for i in range(k))
        n = 0
        for starts in ([edge - k], [edge - 1], [edge], [edge + 1], [edge - k, edge], [0, edge - k, edge + 300], [edge - k // 2], [2 * edge - k, 2 * edge]):
            starts = [x for x in starts if x >= 0]
            if any(y - x < k for x, y in zip(starts, starts[1:])):
                continue
            text = bytearray(b"z" * (2 * edge + k + 400))
            for x in starts:
                text[x : x + k] = pat
            sec = Section(a, text)
            check_eq(list(sec.find(re.escape(pat))), [(a + x, k) for x in starts], f"matches of {k} bytes at {starts}")
            check_eq(list(sec.find(bytearray(re.escape(pat)))), [(a + x, k) for x in starts], f"matches of {k} bytes at {starts}")
            n += len(starts)
        return n
    if kind == "all_bytes":
        from objutils import Section
        import re

        b = p[0]
        text = bytes(range(256)) + bytes([b, b, b]) + bytes(range(255, -1, -1))
        for pat in (bytes([b]), bytes([b, (b + 1) & 255]), bytes([b, b]), bytes([(b + 1) & 255, b])):
            want, i = [], 0
            while i + len(pat) <= len(text):
                if text[i : i + len(pat)] == pat:
                    want.append((0x42 + i, len(pat)))
                    i += len(pat)
                else:
                    i += 1
            check_eq(list(Section(0x42, text).find(re.escape(pat))), want, f"matches of {pat.hex()}")
        return b
    if kind == "places":
        import numpy as np

        from objutils import Image, Section

        gap, lens = p
        secs, a = [], base
        for i, n in enumerate(lens):
            secs.append((a, bytes([0x41 + i]) * (n - 1) + b"\0"))
            a += n + gap
        for a in range(base - 1, a + 1):
            own = [i for i, (b, d) in enumerate(secs) if b <= a < b + len(d)]
            img = Image([Section(*x) for x in secs], join=False)
            if not own:
                expect_raises((InvalidAddressError,), img.read_string, a)
                expect_raises((InvalidAddressError,), img.write_string, a, "")
                expect_raises((InvalidAddressError,), img.read_ndarray, a, 1, "uint8_le", (1,))
                expect_raises((InvalidAddressError,), img.write_ndarray, a, np.zeros(1, "uint8"))
                check_eq(snap(img), tuple(secs), "sections")
                continue
            b, d = secs[own[0]]
            rest = d[a - b :]
            check_eq(img.read_string(a), rest[:-1].decode(), f"string at {a:#x} of {secs}")
            for n in range(1, 11):
                img = Image([Section(*x) for x in secs], join=False)
                if n <= len(rest):
                    check_eq(img.read_ndarray(a, n, "uint8_le", (n,)).tobytes(), rest[:n], f"{n} bytes at {a:#x}")
                    check_eq(img.read_string(a, length=n), rest[:n].decode(), f"{n} characters at {a:#x}")
                    for how in ("string", "ndarray"):
                        img = Image([Section(*x) for x in secs], join=False)
                        raw = b"q" * (n - 1) + b"\0"
                        if how == "string":
                            img.write_string(a, "q" * (n - 1))
                        else:
                            img.write_ndarray(a, np.frombuffer(raw, dtype="uint8"))
                        want = list(secs)
                        want[own[0]] = (b, d[: a - b] + raw + d[a - b + n :])
                        check_eq(snap(img), tuple(want), f"sections after writing a {how} of {n} at {a:#x}")
                else:
                    expect_raises((InvalidAddressError,), img.read_ndarray, a, n, "uint8_le", (n,))
                    expect_raises((InvalidAddressError,), img.write_ndarray, a, np.zeros(n, "uint8"))
                    expect_raises((InvalidAddressError,), img.read_string, a, length=n)
                    expect_raises((InvalidAddressError,), img.write_string, a, "q" * (n - 1))
            img = Image([Section(*x) for x in secs], join=False)
            expect_raises((InvalidAddressError,), img.write_string, a, "q" * len(rest))
            check_eq(snap(img), tuple(secs), "sections after a refused write")
        return (gap, tuple(lens))
    if kind in ("ndarrays", "shapes"):
        import numpy as np

        t, o, shape, layout, order = p
        dt = np.dtype(t).newbyteorder({"le": "<", "be": ">"}[o])
        count = int(np.prod(shape))
        vals = [((i * 37 + 5) % 120) - (0 if t.startswith("u") else 60) for i in range(count)]
        if dt.itemsize > 1 and not t.startswith("f"):
            vals = [v * 257 if abs(v * 257) < 1 << (8 * dt.itemsize - 1) else v for v in vals]
        a = np.array(vals, dtype=dt).reshape(shape)
        if layout == "F":
            a = np.asfortranarray(a)
        elif layout == "strided":
            big = np.zeros([2 * x for x in shape], dtype=dt)
            big[tuple(slice(None, None, 2) for _ in shape)] = a
            a = big[tuple(slice(None, None, 2) for _ in shape)]
        elif layout == "reversed":
            a = a[::-1]
        raw = b"".join(np.array(v, dtype=dt).tobytes() for v in a.ravel(order="C").tolist())
        buf = pattern(len(raw) + 5, 1)
        for obj in objs(base, buf):
            keep = a.copy()
            obj.write_ndarray(base + 2, a)
            check_eq(view(obj), buf[:2] + raw + buf[2 + len(raw) :], f"bytes of a {layout} array {shape} of {t}_{o}")
            check((keep == a).all(), "array changed by write_ndarray")
            got = obj.read_ndarray(base + 2, len(raw), f"{t}_{o}", tuple(shape), order)
            want = a.T if order == "F" else a
            check_eq((got.shape, got.tolist()), (want.shape, want.tolist()), f"array {shape} of {t}_{o}, order {order}")
            check_eq(got.dtype.itemsize, dt.itemsize, "item size")
            got = obj.read_ndarray(base + 2, len(raw), f"{t}_{o}", shape=(-1,))
            check_eq(got.tolist(), a.ravel(order="C").tolist(), "flat array")
        return raw
    if kind == "nd_bounds":
        import numpy as np

        t, size, n, off = p
        buf = pattern(n, 2)
        for obj in objs(base, buf):
            for count in (-1, -2):
                expect_raises((InvalidAddressError, ValueError), obj.read_ndarray, base + off, count * size, f"{t}_le", (-1,), _what=f"array of {count} elements")
            for count in range(1, n // size + 3):
                ok = off >= 0 and off + count * size <= n and off < n
                arr = np.zeros(count, dtype=t)
                if ok:
                    got = obj.read_ndarray(base + off, count * size, f"{t}_le", (count,))
                    check_eq(got.tobytes(), buf[off : off + count * size], "raw bytes of the array")
                else:
                    expect_raises((InvalidAddressError,), obj.read_ndarray, base + off, count * size, f"{t}_le", (count,), _what=f"{count} x {t} at {off} of {n}")
                    expect_raises((InvalidAddressError,), obj.write_ndarray, base + off, arr, _what=f"{count} x {t} at {off} of {n}")
                    check_eq(view(obj), buf, "bytes after a refused write_ndarray")
        return (n, off)
    if kind == "finds":
        import re

        from objutils import Section

        text, a = bytes(p[0]), p[1]
        sec = Section(a, text)
        pats = [bytes(x) for k in (1, 2, 3) for x in itertools.product(b"ab", repeat=k)] if len(text) != 3 or text[1] != 0x55 else [text[:1], text]
        total = 0
        for pat in pats:
            want, i = [], 0
            while i + len(pat) <= len(text):
                if text[i : i + len(pat)] == pat:
                    want.append((a + i, len(pat)))
                    i += len(pat)
                else:
                    i += 1
            check_eq(list(sec.find(re.escape(pat))), want, f"matches of {pat!r} in {text!r}")
            total += len(want)
        check_eq(bytes(sec.data), text, "section after searching")
        return total
