"""Enumerations of images: [[address, length, data seed], ...] plus a row length, per codec."""

from mc.core import pattern
from mc.refcodec import CODECS

ADDR16 = [0, 1, 2, 0xF, 0x10, 0xFF, 0x100, 0x101, 0xFFF, 0x1000, 0x1234, 0x7FFF, 0x8000, 0xA0B0, 0xFEFF, 0xFF00, 0xFFF0, 0xFFFE]
ADDR20 = [0xFFFF, 0x10000, 0x10001, 0x1FFFF, 0x20000, 0x7FFFF, 0x80000, 0x8FFF8, 0xFFF00, 0xFFFF0]
ADDR32 = [
    0xFFFFF,
    0x100000,
    0x100001,
    0x10FFFF,
    0x110000,
    0x123456,
    0x7FFFFF,
    0xFFFFFF,
    0x1000000,
    0x1000001,
    0x100FFFE,
    0x7FFFFFFF,
    0x80000000,
    0x8001FFF8,
    0xFEDCBA98,
    0xFFFF0000,
    0xFFFFFF00,
]


def top_of(codec):
    return CODECS[codec].top or (1 << 32)


def addresses(codec):
    top = top_of(codec)
    out = list(ADDR16)
    if top > 1 << 16:
        out += ADDR20
    if top > 1 << 20:
        out += ADDR32
    return out


LENGTHS = [*range(1, 36), 47, 48, 49, 63, 64, 65, 79, 80, 127, 128, 129, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 511, 513]
ROWS = [1, 2, 3, 4, 5, 7, 8, 11, 15, 16, 17, 20, 31, 32, 33, 64, 100, 121, 122, 127, 128, 129, 200, 249, 250, 251, 252, 254, 255]


def rows(codec):
    c = CODECS[codec]
    if not c.rows:
        return [16]
    if c.max_row is None:
        return [*ROWS, 256, 300, 1000]
    return [r for r in ROWS if r <= c.max_row] + ([] if c.max_row in ROWS else [c.max_row])


def fit(codec, addr, n):
    return addr + n <= top_of(codec)


def singles(codec, tier):
    """(row length, [[address, length, seed]]) one contiguous section."""
    R, L, A = rows(codec), LENGTHS, addresses(codec)
    top = top_of(codec)
    seen = set()

    def emit(a, n, r, seed=0):
        k = (a, n, r, seed)
        if k not in seen and a >= 0 and a + n <= top:
            seen.add(k)
            return [(r, [[a, n, seed]])]
        return []

    big_rows = sorted({R[0], 16 if 16 in R else R[0], R[-1]})
    for a in A:
        for n in L:
            for r in big_rows if tier == "quick" else R:
                yield from emit(a, n, r)
    for r in R:
        for n in L:
            for a in (0, 0x1FF8, 0xFF80) if tier == "quick" else (0, 0x8000, 0x1FF8, 0xFF80, 0xFFC0):
                yield from emit(a, n, r)
    for n in L:  # up to the very last address
        for r in big_rows if tier == "quick" else R:
            yield from emit(top - n, n, r)
            if top > 1 << 16:  # crossing or touching boundaries
                for b in (0x10000, 0x20000, 0x100000, 0x1000000, 0x80000000, 0xFFFF0000):
                    for d in (0, 1, n // 2, n - 1):
                        yield from emit(b - n + d, n, r)
    # long sections
    for n in (1000, 4096, 65536 if tier == "thorough" else 5000):
        for r in big_rows:
            yield from emit(0, n, r)
            yield from emit(top - n, n, r)
            if top > 1 << 16:
                yield from emit(0x10000 - 7, n, r)
                yield from emit(0xFFF0 - n, n, r)


def data_values(codec, tier):
    """(row length, address, bytes as list): every byte value in every lane, constant fills, all value pairs on a lattice."""
    R = rows(codec)
    rl = 16 if 16 in R else R[-1]
    for b in range(256):
        yield (rl, 0x1230, [b])
        for bg in (0, 0xFF, 0x5A):
            for pos in range(3):
                row = [bg] * 3
                row[pos] = b
                yield (rl, 0xF1, row)
    for fill in (0, 1, 0x0A, 0x0D, 0x20, 0x3A, 0x7F, 0x80, 0xFE, 0xFF):
        for n in (2, 4, 8, 15, 16, 17, 32, 64, 100, 200, 250, 255, 300):
            yield (rl, 0x100, [fill] * n)
            yield (R[-1], 0x100, [fill] * n)
    step = 15 if tier == "quick" else 5
    vals = sorted({*range(0, 256, step), 1, 2, 0x7F, 0x80, 0xFE, 0xFF})
    for x in vals:
        for y in vals:
            yield (rl, 0x0, [x, y])


def multis(codec, tier):
    """(row length, [[address, length, seed] ...]) two to four sections, never adjacent."""
    top = top_of(codec)
    R = rows(codec)
    rls = sorted({4 if 4 in R else R[0], 16 if 16 in R else R[0], R[-1]})
    small = [1, 2, 3, 4, 5, 15, 16, 17, 18, 31, 32, 33, 255, 256, 257]
    gaps = [1, 2, 3, 4, 12, 13, 15, 16, 17, 240, 255, 256, 0xFF0]
    if top > 1 << 16:
        gaps += [0xFFEF, 0xFFF0, 0xFFF1, 0xFFFC, 0xFFFF, 0x10000, 0x10001, 0x1FFF0, 0x20000]
    if top > 1 << 20:
        gaps += [0xEFFF0, 0xFFFF0, 0x100000, 0x10FFF0, 0xFFFFF0, 0x1000000, 0x1000FF0, 0x7FFFFFF0]
    bases = [0, 3, 0xFFF0 if top > 1 << 16 else 0xE000, 0x100]
    if top > 1 << 20:
        bases += [0xFFFF0, 0x12FFF0]
    for base in bases:
        for n1 in small if tier == "thorough" else (1, 4, 16, 17, 256):
            for n2 in small if tier == "thorough" else (1, 16, 20):
                for g in gaps:
                    if base + n1 + g + n2 > top:
                        continue
                    for r in rls:
                        yield (r, [[base, n1, 1], [base + n1 + g, n2, 2]])
    # three and four sections
    sub = [g for g in gaps if g in (1, 16, 255, 0xFFF0, 0x10000, 0xFFFF0, 0x100000, 0x7FFFFFF0)]
    for base in bases:
        for n in (1, 8, 16):
            for g1 in sub:
                for g2 in sub:
                    a2 = base + n + g1
                    a3 = a2 + n + g2
                    if a3 + n <= top:
                        yield (rls[1] if len(rls) > 1 else rls[0], [[base, n, 1], [a2, n, 2], [a3, n, 3]])
                        for g3 in sub if tier == "thorough" else sub[:2]:
                            if a3 + 2 * n + g3 <= top:
                                yield (
                                    rls[0],
                                    [[base, n, 1], [a2, n, 2], [a3, n, 3], [a3 + n + g3, n, 4]],
                                )
    # the second section a power of two away: one bit of the address changes
    for base in (0, 3, 0xFFF0, 0x1000, 0x12340, 0x1FFF0, 0xFFFFF0):
        for n in (1, 16):
            for k in range(32):
                for start in {base + n + (1 << k), base + (1 << k), (base + n) ^ (1 << k)}:
                    if start > base + n and start + 4 <= top:
                        yield (rls[1] if len(rls) > 1 else rls[0], [[base, n, 1], [start, 4, 2]])
                        if start + 4 + (1 << k) + 4 <= top:
                            yield (rls[0], [[base, n, 1], [start, 4, 2], [start + 4 + (1 << k), 4, 3]])
    # sections filling up the address space from both ends
    yield (rls[-1], [[0, 5, 1], [top - 5, 5, 2]])
    for n in range(2, 40):  # many small sections
        yield (rls[-1], [[0x10 * i, 1 + i % 15, i] for i in range(n)])
        yield (rls[0], [[0x10 * i + (i % 3), 3, i] for i in range(n)])


def build(sections):
    return tuple((a, pattern(n, s)) for a, n, s in sections)


def make_image(sections):
    """sections: tuple of (address, bytes)."""
    import objutils

    img = objutils.Image()
    for a, d in sections:
        img.insert_section(d, a)
    return img


def crowds(codec, tier):
    """Many sections and many records: [row length, [count, step, length]] meaning `count` sections of `length` bytes, `step` apart."""
    top = top_of(codec)
    R = rows(codec)
    counts = (64, 127, 128, 129, 255, 256, 257, 300, 999, 1000, 1001, 1100)
    for count in counts if tier == "thorough" else (128, 255, 256, 257, 1001):
        for step, length in ((2, 1), (17, 16), (33, 17), (60, 3)) + (((0x10000, 2), (0xFFFF, 5)) if top > 1 << 25 else ()):
            if (count - 1) * step + length <= top:
                for r in sorted({R[0], 16 if 16 in R else R[0], R[-1]}) if tier == "thorough" else [16 if 16 in R else R[-1]]:
                    yield r, [count, step, length]


def crowd(count, step, length):
    return tuple((i * step, pattern(length, i)) for i in range(count))


def bulk(codec, tier):
    """Long sections: more records than fit a byte or a 16 bit number."""
    top = top_of(codec)
    R = rows(codec)
    for n in (255, 256, 257, 4095, 4097, 32767, 32769, 65535, 65536, 65537, 70000, 140000) + ((300000,) if tier == "thorough" else ()):
        for r in sorted({R[0], 2 if 2 in R else R[0], 16 if 16 in R else R[0], R[-1]}):
            if tier == "quick" and (r < 16 and n not in (257, 65537) or n in (32767, 65535, 4095) and r > 16):
                continue
            for a in (0, 3, 0xFFF0, top - n):
                if 0 <= a and a + n <= top:
                    yield r, [[a, n, 1]]
                if 0 <= a and a + n + 70000 <= top:
                    yield r, [[a, n, 1], [a + n + 1, 5, 2], [a + n + 60000, 9, 3]]


def adjacent(codec, tier):
    """Sections touching each other which were never joined: [row length, [lengths]]."""
    from itertools import product

    R = rows(codec)
    for r in sorted({4 if 4 in R else R[0], 16 if 16 in R else R[0], R[-1]}):
        for k in (2, 3):
            for lens in product((0, 1, 3, 15, 16, 17, 255, 256) if k == 2 else (0, 1, 16, 20), repeat=k):
                if not any(lens):
                    continue
                for base in (0, 0x1003, 0xFF80 if top_of(codec) <= 1 << 16 else 0xFFFE):
                    if base + sum(lens) <= top_of(codec):
                        yield r, base, list(lens)
