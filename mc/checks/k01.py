"""K01: checksum functions compute the standard checksums."""

import itertools

from mc import core
from mc.core import check_eq, expect_raises, pattern

ID = "K01"
LEVEL = "exploration"
RULE = (
    "Every one- and two-byte message, all messages up to length 7 over a small alphabet, single-bit messages up to a length, "
    "long patterned messages, every width/complement/rotation, in every container; compared with bit-serial definitions."
)
ASSUMPTIONS = ["messages of the word sums are a whole number of words"]


def bits_crc(data, poly, width, init, refl, out):
    """The definition: polynomial division, one bit at a time."""
    reg = init
    for b in data:
        for i in range(8):
            bit = (b >> i if refl else b >> (7 - i)) & 1
            top = reg >> (width - 1) & 1
            reg = reg << 1 & (1 << width) - 1
            if top ^ bit:
                reg ^= poly
    if refl:
        reg = int(format(reg, f"0{width}b")[::-1], 2)
    return reg ^ out


def ref(name, m):
    if name == "CHK_CRC_16":
        return bits_crc(m, 0x8005, 16, 0, True, 0)
    if name == "CHK_CRC_16_CCITT":
        return bits_crc(m, 0x1021, 16, 0xFFFF, False, 0)
    if name == "CHK_CRC_32":
        return bits_crc(m, 0x04C11DB7, 32, 0xFFFFFFFF, True, 0xFFFFFFFF)
    size = {"1": 1, "2": 2, "4": 4}
    step, out = size[name[-2]], size[name[-1]]
    total = 0
    for i in range(0, len(m), step):
        total += sum(m[i + k] << 8 * k for k in range(step))
    return total & (1 << 8 * out) - 1


NAMES = ["CHK_ADD_11", "CHK_ADD_12", "CHK_ADD_14", "CHK_ADD_22", "CHK_ADD_24", "CHK_ADD_44", "CHK_CRC_16", "CHK_CRC_16_CCITT", "CHK_CRC_32"]
STEP = {"CHK_ADD_22": 2, "CHK_ADD_24": 2, "CHK_ADD_44": 4}
ALPHABET = [0x00, 0x01, 0x7F, 0x80, 0xFF]


def spaces(tier):
    def pairs():
        for n in NAMES:
            for first in range(256):
                yield [n, first]

    def words():
        for n in NAMES:
            for length in range(0, 6 if tier == "quick" else 8):
                for first in ALPHABET if length else [0]:
                    yield [n, first, length]

    def singlebits():
        for n in NAMES:
            for length in (*range(1, 17), 64):
                yield [n, length]

    def long():
        for n in NAMES:
            for length in (100, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 100000, 131073):
                for kind in ("pattern", "ff", "00", "inc"):
                    yield [n, length, kind]

    def simple():
        for first in range(256):
            yield [first]

    def lrcs():
        for width in (*range(1, 25), 31, 32, 33, 64):
            for comp in range(3):
                yield [width, comp]

    def positions():
        for n in NAMES:
            for block in range(20):
                yield [n, block]

    def history():
        for a in NAMES:
            for b in NAMES:
                yield [a, b]

    def bad():
        for n in NAMES:
            yield [n]

    return {"pairs": pairs, "words": words, "singlebits": singlebits, "long": long, "positions": positions, "history": history, "simple": simple, "lrcs": lrcs, "bad": bad}


def run_case(kind, p):
    return globals()["do_" + kind](*p)


def same(n, m):
    from objutils.checksums import check

    check_eq(check(m, n), ref(n, m), f"{n} of {bytes(m[:40]).hex()}")
    return 1


def do_pairs(n, first):
    step = STEP.get(n, 1)
    for second in range(256):
        m = bytes([first, second])
        if step == 4:
            m = bytes([first, 0, second, 0xFF])
        same(n, m)
        if step == 4:
            same(n, bytes([0x80, second, 0xFF, first]))
    if step == 1:
        same(n, bytes([first]))
    return ref(n, m)


def do_words(n, first, length):
    step = STEP.get(n, 1)
    if length % step:
        return "skip"
    k = 0
    for rest in itertools.product(ALPHABET, repeat=max(length - 1, 0)):
        m = bytes([first, *rest]) if length else b""
        k += same(n, m)
    return k


def do_singlebits(n, length):
    if length % STEP.get(n, 1):
        return "skip"
    from objutils.checksums import check

    out = []
    for i in range(8 * length):
        m = bytearray(length)
        m[i // 8] = 1 << i % 8
        for data in (bytes(m), m, memoryview(bytes(m)), *((list(m), tuple(m)) if STEP.get(n, 1) == 1 else ())):
            got = check(data, n)
            check_eq(got, ref(n, m), f"{n} of bit {i} in {length} bytes ({type(data).__name__})")
        out.append(got)
    return hash(tuple(out))


def do_long(n, length, kind):
    m = {"pattern": pattern(length), "ff": b"\xff" * length, "00": bytes(length), "inc": bytes(i & 255 for i in range(length))}[kind]
    if length % STEP.get(n, 1):
        m += bytes(-length % STEP[n])
    same(n, m)
    return ref(n, m)


def do_positions(n, block):
    """One byte changed at every position of a long message changes the sum as defined (linear in the message for CRCs)."""
    step = STEP.get(n, 1)
    m = bytearray(pattern(1020, 3))
    for i in range(block * 51, block * 51 + 51):
        m[i] ^= 0x81
        same(n, bytes(m))
        m[i] ^= 0x81
        same(n, bytes(m[: i - i % step]))
    return n, block


def do_history(a, b):
    """Calls do not influence each other, refused ones included."""
    from objutils.checksums import check

    msgs = [b"\x12\x34\x56\x78", b"\xff" * 8, bytes(300), pattern(512)]
    for m1 in msgs:
        for m2 in msgs:
            same(a, m1)
            same(b, m2)
            expect_raises((NotImplementedError,), check, m1, "CHK_NONE_SUCH")
            for junk in (None, ["x"], 5):
                try:
                    check(junk, a)
                except Exception:
                    pass
            same(a, m1)
            same(b, m1)
    return a, b


def do_simple(first):
    from objutils import checksums as c

    check_eq(c.rolb(first), (first * 2 & 0xFF) | first >> 7, "rotate left")
    check_eq(c.rorb(first), first >> 1 | (first & 1) << 7, "rotate right")
    check_eq(c.rolb(c.rorb(first)), first, "rotations are inverse")
    for n in (8, 16, 32):
        check_eq(c.reflect(first, n), int(format(first, f"0{n}b")[::-1], 2), f"reflect {first} {n}")
    out = []
    for m in ([first], *([first, x] for x in range(256)), *([first, x, y] for x in ALPHABET for y in ALPHABET), [first] * 100, *(([first] + list(pattern(n, first))) for n in (255, 256, 257, 1000, 5000))):
        inv = 0xFF
        plain = 0
        l8 = r8 = 0
        nib = 0
        for v in m:
            inv ^= v
            plain ^= v
            l8 ^= v
            l8 = (l8 << 1 | l8 >> 7) & 0xFF
            r8 ^= v
            r8 = (r8 >> 1 | r8 << 7) & 0xFF
            nib += v // 16 + v % 16
        for data in (m, bytes(m), bytearray(m)):
            check_eq(c.xor(data), inv, f"xor {m}")
            check_eq(c.xor(data, True), inv, f"xor {m} inverted")
            check_eq(c.xor(data, False), plain, f"xor {m} not inverted")
            check_eq(c.nibble_sum(data), nib % 256, f"nibble sum {m}")
            for w in (4, 8, 16, 32):
                check_eq(c.rotatedXOR(data, w, c.ROTATE_LEFT), l8 & (1 << w) - 1, f"rotated left xor {m} {w}")
                check_eq(c.rotatedXOR(data, w, c.ROTATE_RIGHT), r8 & (1 << w) - 1, f"rotated right xor {m} {w}")
        out.append((l8, r8, nib))
    return hash(tuple(out))


def do_lrcs(width, comp):
    from objutils import checksums as c

    mod = 1 << width
    msgs = [b"", *(bytes([x]) for x in range(256)), *(bytes([x]) * 3 for x in range(256)), *(b"\xff" * n for n in (16, 256, 257, 4096)), pattern(1000)]
    msgs += [bytes(t) for t in itertools.product(ALPHABET, repeat=3)]
    for m in msgs:
        s = sum(m)
        want = [s % mod, mod - 1 - s % mod, -s % mod][comp]
        check_eq(c.lrc(m, width, [c.COMPLEMENT_NONE, c.COMPLEMENT_ONES, c.COMPLEMENT_TWOS][comp]), want, f"lrc of {m[:20]} ({len(m)}) width {width} complement {comp}")
        if comp == 0:
            check_eq(c.lrc(list(m), width), want, "lrc default complement")
    return mod, comp


def do_bad(n):
    from objutils.checksums import check

    names = {"", "CHK_ADD_33", n.lower(), n + " ", "CHK_USER_DEFINED", "CRC_16", "CHK_CRC_8", "CHK_CRC_64"}
    names |= {n[:i] + n[i + 1 :] for i in range(len(n))} | {n[:i] + c + n[i:] for i in range(len(n) + 1) for c in "_ 146C"}
    names |= {n[:i] + c + n[i + 1 :] for i in range(len(n)) for c in "_ 1234680CIT"} | {n[:i] for i in range(len(n))} | {n[:i].lower() + n[i:] for i in range(1, len(n) + 1)}
    for name in sorted(names - set(NAMES)):
        expect_raises((NotImplementedError,), check, b"abcd", name, _what=f"algorithm {name!r}")
    return n
