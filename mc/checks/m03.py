"""M03: typed numeric access."""

import itertools
import math

from mc.core import check, check_eq, expect_raises, pattern
from mc.refmem import snap

ID = "M03"
LEVEL = "exploration"
RULE = (
    "Every data type x byte order x boundary value (all single bits, every byte value in every lane, range limits) x "
    "placement in sections of every size around the type's size, through sections and images, scalar and array; compared "
    "with an independent bit-level encoding."
)
ASSUMPTIONS = ["floating point values are compared by their IEEE 754 bit pattern, computed from the definition"]

INTS = {f"{u}int{n}": (n // 8, not u) for n in (8, 16, 32, 64) for u in ("u", "")}
FLOATS = {"float32": (4, 8, 23), "float64": (8, 11, 52)}
CODE = dict(zip(INTS, "BbHhIiQq"), float32="f", float64="d", byte="B")
ORDERS = {"le": "little", "be": "big"}


def enc_int(v, size, order):
    return bytes((v >> 8 * i) & 0xFF for i in (range(size) if order == "le" else reversed(range(size))))


def dec_int(b, signed, order):
    v = 0
    for x in b if order == "be" else reversed(b):
        v = v << 8 | x
    if signed and v >> (8 * len(b) - 1):
        v -= 1 << 8 * len(b)
    return v


def float_bits(bits, ebits, mbits):
    """Value of an IEEE 754 bit pattern, from the definition."""
    s = bits >> (ebits + mbits)
    e = bits >> mbits & (1 << ebits) - 1
    m = bits & (1 << mbits) - 1
    bias = (1 << ebits - 1) - 1
    if e == (1 << ebits) - 1:
        v = math.nan if m else math.inf
    elif e == 0:
        v = math.ldexp(m, 1 - bias - mbits)
    else:
        v = math.ldexp(m + (1 << mbits), e - bias - mbits)
    return -v if s else v


def int_values(size, signed):
    n = 8 * size
    lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if signed else (0, (1 << n) - 1)
    vals = {0, 1, 2, lo, lo + 1, hi, hi - 1, hi // 2, hi // 3}
    for k in range(n):
        vals |= {1 << k, (1 << k) - 1, -(1 << k), ~(1 << k), hi ^ (1 << k)}
    for lane in range(size):
        for b in range(0, 256, 1 if size <= 2 else 5):
            vals |= {dec_int(enc_int(b << 8 * lane, size, "le"), signed, "le")}
    vals.add(dec_int(bytes(range(1, size + 1)), signed, "be"))
    return sorted(v for v in vals if lo <= v <= hi)


def float_patterns(size, ebits, mbits):
    n = 8 * size
    pats = {0, 1 << n - 1, 1, (1 << mbits) - 1, 1 << mbits, ((1 << ebits) - 2 << mbits) | (1 << mbits) - 1}
    bias = (1 << ebits - 1) - 1
    for e in {0, 1, bias - 1, bias, bias + 1, bias + 10, (1 << ebits) - 2}:
        for m in {0, 1, 1 << mbits - 1, (1 << mbits) - 1, 0x123456 & (1 << mbits) - 1}:
            pats |= {e << mbits | m, 1 << n - 1 | e << mbits | m}
    for k in range(mbits):
        pats.add(bias << mbits | 1 << k)
    pats.add((1 << ebits) - 1 << mbits)  # inf
    pats.add(1 << n - 1 | (1 << ebits) - 1 << mbits)
    return sorted(pats)


def spellings(dtype):
    return [dtype, dtype.upper(), f" {dtype} ", dtype.capitalize()]


def spaces(tier):
    def ints():
        for t, (size, signed) in INTS.items():
            for o in ORDERS:
                for v in int_values(size, signed):
                    yield [t, o, v]
        for v in range(256):
            yield ["byte", None, v]

    def floats():
        for t, (size, e, m) in FLOATS.items():
            for o in ORDERS:
                for b in float_patterns(size, e, m):
                    yield [t, o, b]

    def bounds():
        for t in [*INTS, *FLOATS, "byte"]:
            for o in ORDERS if t != "byte" else (None,):
                for base in (0, 0xFFFC, 0xFFFFFFFF, 1 << 63):
                    for n in range(1, 20):
                        yield [t, o, base, n]

    def arrays():
        for t in [*INTS, *FLOATS, "byte"]:
            for o in ORDERS if t != "byte" else (None,):
                for count in (0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 64, 255, 256, 257):
                    for off in (0, 1, 3):
                        for slack in (0, 1):
                            yield [t, o, count, off, slack]

    def ranges():
        for t, (size, signed) in INTS.items():
            for o in ORDERS:
                n = 8 * size
                lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if signed else (0, (1 << n) - 1)
                for d in (1, 2, 255, 256, 1 << n, 1 << 64):
                    yield [t, o, lo - d]
                    yield [t, o, hi + d]

    def masks():
        for t, (size, signed) in INTS.items():
            n = 8 * size
            ms = {0, (1 << n) - 1, 1, 1 << n - 1, 0x0F, 0xF0 << (n - 8), (1 << n // 2) - 1, 0x5555555555555555 & (1 << n) - 1}
            ms |= {1 << k for k in range(n)} | {(1 << k) - 1 for k in range(n)} | {0xFF << 8 * i for i in range(size)}
            for o in ORDERS:
                for m in sorted(ms):
                    for raw in (bytes(range(0x81, 0x81 + size)), b"\xff" * size, b"\xa5" * size):
                        yield [t, o, m, list(raw)]
        for m in range(256):
            yield ["byte", None, m, [0xA7]]

    def long():
        for t in [*INTS, *FLOATS, "byte"]:
            for o in ORDERS if t != "byte" else (None,):
                for count in (511, 512, 999, 1000, 1001, 1024, 4095, 4096, 4097, 65536):
                    yield [t, o, count]

    def places():
        for t in [*INTS, *FLOATS, "byte"]:
            for o in ORDERS if t != "byte" else (None,):
                for gap in (0, 1):
                    for lens in itertools.product((1, 2, 7, 9), repeat=3):
                        yield [t, o, gap, list(lens)]

    def invalid():
        for t in [*INTS, *FLOATS]:
            for o in ORDERS:
                for bad in near(dtype(t, o)):
                    yield [bad]
        for t in ("byte", *near("byte")):
            if t.strip().lower() != "byte":
                yield [t]
        for t in ("uint8", "int16", "uint12_le", "int_le", "uint16_xe", "uint16-le", "float16_le", "", "_le", "double_be", "uint128_be", "bytes", "uint8_"):
            yield [t]

    return {
        "bounds": bounds,
        "ints": ints,
        "floats": floats,
        "arrays": arrays,
        "ranges": ranges,
        "masks": masks,
        "long": long,
        "places": places,
        "invalid": invalid,
    }


VALID = {f"{t}_{o}" for t in [*INTS, *FLOATS] for o in ORDERS} | {"byte"}


def near(name):
    """Every name one edit away which is not a data type (in any of the accepted spellings)."""
    alpha = "abu_i13468.-<0 "
    out = {name[:i] + name[i + 1 :] for i in range(len(name))}
    out |= {name[:i] + c + name[i:] for i in range(len(name) + 1) for c in alpha}
    out |= {name[:i] + c + name[i + 1 :] for i in range(len(name)) for c in alpha}
    out |= {name[:i] + name[i + 1] + name[i] + name[i + 2 :] for i in range(len(name) - 1)}
    return sorted(x for x in out if x.strip().lower() not in VALID)


def dtype(t, o):
    return t if o is None else f"{t}_{o}"


def tsize(t):
    return 1 if t == "byte" else INTS[t][0] if t in INTS else FLOATS[t][0]


def run_case(kind, p):
    from objutils import Image, Section
    from objutils.exceptions import InvalidAddressError

    import struct

    if kind == "invalid":
        for obj in (Section(0, pattern(64)), Image([Section(0, pattern(64))])):
            for f in (
                lambda: obj.read_numeric(0, p[0]),
                lambda: obj.write_numeric(0, 1, p[0]),
                lambda: obj.read_numeric_array(0, 2, p[0]),
                lambda: obj.write_numeric_array(0, [1, 2], p[0]),
            ):
                expect_raises((TypeError, ValueError, struct.error), f, _what=f"data type {p[0]!r}")
            check_eq(bytes(obj.data) if isinstance(obj, Section) else snap(obj)[0][1], pattern(64), f"bytes after refusing {p[0]!r}")
        return "refused"
    t, o = p[0], p[1]
    dt, size = dtype(t, o), tsize(t)
    if kind == "ints":
        v = p[2]
        raw = enc_int(v, size, o or "le")
        signed = t in INTS and INTS[t][1]
        for off in (0, 1, 5):
            buf = pattern(off + size + 3, 1)
            want = buf[:off] + raw + buf[off + size :]
            for sp in spellings(dt) if off == 0 else [dt]:
                for obj in (Section(0x1000, buf), Image([Section(0x1000, buf)])):
                    obj.write_numeric(0x1000 + off, v, sp)
                    got = bytes(obj.data) if isinstance(obj, Section) else snap(obj)[0][1]
                    check_eq(got, want, f"bytes after writing {v} as {sp} at offset {off}")
                    check_eq(obj.read_numeric(0x1000 + off, sp), v, f"{sp} at offset {off}")
                    check_eq(obj.read_numeric_array(0x1000 + off, 1, sp), (v,), f"array of one {sp}")
        other = {"le": "be", "be": "le", None: None}[o]
        check_eq(Section(0, raw).read_numeric(0, dtype(t, other)), dec_int(raw, signed, other or "le"), "other byte order")
        return raw
    if kind == "floats":
        bits = p[2]
        _, e, m = FLOATS[t]
        v = float_bits(bits, e, m)
        raw = enc_int(bits, size, o)
        for off in (0, 3):
            buf = pattern(off + size + 2, 1)
            for obj in (Section(0x1000, buf), Image([Section(0x1000, buf)])):
                obj.write_numeric(0x1000 + off, v, dt)
                got = bytes(obj.data) if isinstance(obj, Section) else snap(obj)[0][1]
                check_eq(got, buf[:off] + raw + buf[off + size :], f"bytes after writing {v!r} as {dt}")
                r = obj.read_numeric(0x1000 + off, dt)
                check(r == v and math.copysign(1, r) == math.copysign(1, v), "%s read %r, wrote %r", dt, r, v)
        return raw
    if kind == "bounds":
        base, n = p[2], p[3]
        buf = pattern(n, 4)
        for a in range(max(base - 3, 0), base + n + 3):
            ok = base <= a and a + size <= base + n
            for obj in (Section(base, buf), Image([Section(base, buf)])):
                view = (lambda: bytes(obj.data)) if isinstance(obj, Section) else (lambda: snap(obj)[0][1])
                if ok:
                    raw = buf[a - base : a - base + size]
                    if t in FLOATS:
                        v = obj.read_numeric(a, dt)
                    else:
                        v = dec_int(raw, t in INTS and INTS[t][1], o or "le")
                        check_eq(obj.read_numeric(a, dt), v, f"{dt} at {a:#x}")
                    obj.write_numeric(a, 0, dt)
                    check_eq(view(), buf[: a - base] + bytes(size) + buf[a - base + size :], f"{dt} zeroed at {a:#x}")
                else:
                    for what, f in (
                        ("read_numeric", lambda: obj.read_numeric(a, dt)),
                        ("write_numeric", lambda: obj.write_numeric(a, 0, dt)),
                        ("read_numeric_array", lambda: obj.read_numeric_array(a, 1, dt)),
                        ("write_numeric_array", lambda: obj.write_numeric_array(a, [0], dt)),
                    ):
                        expect_raises((InvalidAddressError,), f, _what=f"{what}({a:#x}, {dt}) on [{base:#x}, +{n})")
                    check_eq(view(), buf, f"bytes after a refused {dt} access at {a:#x}")
        return (size, n)
    if kind == "arrays":
        count, off, slack = p[2], p[3], p[4]
        base = 0x2000
        buf = pattern(off + count * size + slack, 5)
        if not buf:
            return None
        if t in FLOATS:
            vals = [float(i - 3) * 0.5 for i in range(count)]
            raw = b"".join(struct.pack({"le": "<", "be": ">"}[o] + {"float32": "f", "float64": "d"}[t], v) for v in vals)
        else:
            iv = int_values(size, t in INTS and INTS[t][1])
            vals = [iv[(i * 7) % len(iv)] for i in range(count)]
            raw = b"".join(enc_int(v, size, o or "le") for v in vals)
        want = buf[:off] + raw + buf[off + len(raw) :]
        for obj in (Section(base, buf), Image([Section(base, buf)])):
            view = (lambda: bytes(obj.data)) if isinstance(obj, Section) else (lambda: snap(obj)[0][1])
            if count == 0 and not slack and isinstance(obj, Image):
                continue  # the address behind the last byte belongs to no section
            for seq in (vals, tuple(vals)):
                obj.write_numeric_array(base + off, seq, dt)
                check_eq(view(), want, f"bytes after writing {count} {dt} at offset {off}")
            check_eq(tuple(obj.read_numeric_array(base + off, count, dt)), tuple(vals), f"{count} {dt} at offset {off}")
            for i in range(0, count, max(1, count // 5)):
                check_eq(obj.read_numeric(base + off + i * size, dt), vals[i], f"element {i} of the array")
            more = count + slack // size + 1
            expect_raises((InvalidAddressError,), obj.read_numeric_array, base + off, more, dt, _what=f"reading {more} {dt}")
            expect_raises((InvalidAddressError,), obj.write_numeric_array, base + off, [0] * more, dt, _what=f"writing {more} {dt}")
            check_eq(view(), want, "bytes after a refused access")
        return hash(want)
    if kind == "long":
        count, base = p[2], 0x7FFFFF0
        if t in FLOATS:
            vals = [float(i - 300) * 0.25 for i in range(count)]
            raw = struct.pack(f"{'<' if o == 'le' else '>'}{count}{'f' if size == 4 else 'd'}", *vals)
        else:
            iv = int_values(size, t in INTS and INTS[t][1])
            vals = [iv[(i * 7 + i // len(iv)) % len(iv)] for i in range(count)]
            raw = b"".join(enc_int(v, size, o or "le") for v in vals)
        buf = pattern(len(raw) + 5, 5)
        want = buf[:2] + raw + buf[2 + len(raw) :]
        for obj in (Section(base, buf), Image([Section(base, buf)])):
            view = (lambda: bytes(obj.data)) if isinstance(obj, Section) else (lambda: snap(obj)[0][1])
            obj.write_numeric_array(base + 2, vals, dt)
            check(view() == want, "bytes after writing %d %s", count, dt)
            check(tuple(obj.read_numeric_array(base + 2, count, dt)) == tuple(vals), "%d %s read back", count, dt)
            for i in sorted({0, 1, 127, 128, 255, 256, 257, count // 2, count - 2, count - 1}):
                check_eq(obj.read_numeric(base + 2 + i * size, dt), vals[i], f"element {i} of {count} {dt}")
                obj.write_numeric(base + 2 + i * size, vals[i], dt)
            check(view() == want, "bytes after writing single elements of %d %s", count, dt)
            more = count + 3 // size + 1
            expect_raises((InvalidAddressError,), obj.read_numeric_array, base + 2, more, dt, _what=f"reading {more} {dt}")
            expect_raises((InvalidAddressError,), obj.write_numeric_array, base + 2, [0] * more, dt, _what=f"writing {more} {dt}")
            check(view() == want, "bytes after a refused access")
        return count * size
    if kind == "places":
        gap, lens = p[2], p[3]
        secs, a = [], 0x100
        for i, n in enumerate(lens):
            secs.append((a, pattern(n, i)))
            a += n + gap
        for a in range(0xFF, a + 1):
            own = [i for i, (b, d) in enumerate(secs) if b <= a < b + len(d)]
            img = Image([Section(*x) for x in secs], join=False)
            for count in (1, 2):
                ok = own and a + count * size <= secs[own[0]][0] + lens[own[0]]
                if ok:
                    b, d = secs[own[0]]
                    raw = d[a - b : a - b + count * size]
                    got = img.read_numeric_array(a, count, dt)
                    check(struct.pack(("<" if o != "be" else ">") + CODE[t] * count, *got) == raw or t in FLOATS, "%d x %s at %#x of %r: %r", count, dt, a, secs, got)
                    if count == 1:
                        x = img.read_numeric(a, dt)
                        check(x == got[0] or x != x, "%s at %#x: %r and %r", dt, a, x, got)
                else:
                    expect_raises((InvalidAddressError,), img.read_numeric_array, a, count, dt, _what=f"reading {count} x {dt} at {a:#x}")
                    expect_raises((InvalidAddressError,), img.write_numeric_array, a, [1] * count, dt, _what=f"writing {count} x {dt} at {a:#x}")
            check_eq(snap(img), tuple(secs), "sections")
            for count in (1, 2):
                if own and a + count * size <= secs[own[0]][0] + lens[own[0]]:
                    img = Image([Section(*x) for x in secs], join=False)
                    if count == 1:
                        img.write_numeric(a, 1, dt)
                    else:
                        img.write_numeric_array(a, [1, 1], dt)
                    one = struct.pack(("<" if o != "be" else ">") + CODE[t] * count, *[1] * count)
                    b, d = secs[own[0]]
                    want = list(secs)
                    want[own[0]] = (b, d[: a - b] + one + d[a - b + len(one) :])
                    check_eq(snap(img), tuple(want), f"sections after writing {count} x {dt} at {a:#x}")
        return (size, gap, tuple(lens))
    if kind == "ranges":
        v = p[2]
        buf = pattern(size + 4, 6)
        for obj in (Section(0x10, buf), Image([Section(0x10, buf)])):
            view = (lambda: bytes(obj.data)) if isinstance(obj, Section) else (lambda: snap(obj)[0][1])
            expect_raises((struct.error, OverflowError, ValueError), obj.write_numeric, 0x11, v, dt, _what=f"writing {v} as {dt}")
            check_eq(view(), buf, f"bytes after refusing {v} as {dt}")
            expect_raises((struct.error, OverflowError, ValueError, Exception), obj.write_numeric_array, 0x11, [0, v], dt, _what=f"writing [0, {v}] as {dt}")
            check_eq(view(), buf, f"bytes after refusing [0, {v}] as {dt}")
        return "refused"
    if kind == "masks":
        mask, raw = p[2], bytes(p[3])
        buf = b"\x11" + raw + b"\x22"
        want = dec_int(enc_int(dec_int(raw, False, o or "le") & mask, size, o or "le"), t in INTS and INTS[t][1], o or "le")
        for obj in (Section(0x10, buf), Image([Section(0x10, buf)])):
            check_eq(obj.read_numeric(0x11, dt, bit_mask=mask), want, f"{dt} masked with {mask:#x}")
            view = bytes(obj.data) if isinstance(obj, Section) else snap(obj)[0][1]
            check_eq(view, buf, "bytes after a masked read")
        return want
