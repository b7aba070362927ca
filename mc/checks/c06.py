"""C06: converting between formats preserves the image."""

from mc import images
from mc.core import check, check_eq, pattern
from mc.refcodec import CODECS
from mc.refmem import normalize, snap

ID = "C06"
LEVEL = "exploration"
RULE = (
    "Every chain load(A) -> save(B) -> load(B) -> save(C) -> load(C) over all ordered triples of codecs (and the binary "
    "format for contiguous images) x section layouts x row lengths; every ordered pair x lengths 1..35, 64, 65 x 11 contents; pairs with 17 to "
    "257 sections; source documents come from independent encoders."
)
ASSUMPTIONS = ["images fit the address space of all codecs of the chain"]

LAYOUTS = [
    [[0, 1, 0]],
    [[0, 16, 1]],
    [[0x1F3, 45, 2]],
    [[0x100, 16, 3], [0x110, 16, 4], [0x200, 5, 5]],  # adjacent records
    [[0x4000, 33, 6], [0x10, 3, 7], [0x8000, 64, 8]],  # unordered
    [[0xFFF0, 16, 9], [0, 16, 10]],
    [[0xFEFF, 1, 11], [0xFF01, 2, 12], [0xFF04, 100, 13]],
]
WIDE = [
    [[0xFFF0, 16, 1], [0x10000, 16, 2], [0x1FFFF, 1, 3]],
    [[0x12345, 100, 1], [0x10, 3, 2], [0xFFFF0, 16, 3]],
]
WIDER = [
    [[0xFFFFF, 1, 1], [0x100000, 20, 2], [0x1FFFF8, 8, 3], [0x200000, 8, 4]],
    [[0x10, 16, 1], [0x10010, 16, 2], [0x100010, 16, 3], [0x1000010, 16, 4], [0xFFFFFFF0, 16, 5]],
]


def spaces(tier):
    names = [*CODECS, "bin"]

    def chains():
        for a in names:
            for b in names:
                for c in names:
                    if c == a and b == a:
                        continue
                    top = min(images.top_of(n) if n != "bin" else 1 << 32 for n in (a, b, c))
                    lay = list(LAYOUTS)
                    if top > 1 << 16:
                        lay += WIDE
                    if top > 1 << 20:
                        lay += WIDER
                    for spec in lay:
                        if "bin" in (a, b, c) and len(normalize_spec(spec)) != 1:
                            continue
                        for r in ((16, 16), (1, 32), (7, 122)) if tier == "quick" else ((16, 16), (1, 32), (7, 122), (32, 3), (100, 5), (122, 1)):
                            yield [a, b, c, spec, list(r)]

    def contents():
        """Every ordered pair of codecs x every length around the record size x contents with telling first and last bytes."""
        for a in names:
            for b in names:
                for n in [*range(1, 36), 64, 65] if tier == "quick" else [*range(1, 70), *range(120, 135), *range(250, 260)]:
                    yield [a, b, n]

    def many():
        """Images of many sections."""
        for a in names:
            for b in names:
                if "bin" not in (a, b):
                    for n in (17, 40, 257) if tier == "quick" else (17, 40, 100, 255, 256, 257, 1025):
                        yield [a, b, n]

    return {"chain": chains, "contents": contents, "many": many}


def normalize_spec(spec):
    return normalize({a + i: b for a, n, s in spec for i, b in enumerate(pattern(n, s))})


FILLS = {
    "zeros": lambda n: bytes(n),
    "ones": lambda n: b"\xff" * n,
    "last 0": lambda n: pattern(n - 1, n) + b"\0",
    "last 00": lambda n: (pattern(n, n) + b"\0\0")[2:],
    "last FF": lambda n: pattern(n - 1, n) + b"\xff",
    "first 0": lambda n: b"\0" + pattern(n - 1, n),
    "first FF": lambda n: b"\xff" + pattern(n - 1, n),
    "spaces": lambda n: b" " * n,
    "lines": lambda n: (b"\r\n" * n)[:n],
    "eof": lambda n: pattern(n - 1, 1) + b"\x1a",
    "syntax": lambda n: (b"S9030000FC\n:00000001FF\n/00000000\n;00\n$$0000,\n@0100\nq\n" * n)[:n],
}


def pair(a, b, data, base):
    """bytes -> document of a -> document of b -> image."""
    import objutils

    doc = data if a == "bin" else CODECS[a].encode([(base + k, data[k : k + 16]) for k in range(0, len(data), 16)], {})
    img = objutils.loads(a, doc, base) if a == "bin" else objutils.loads(a, doc)
    doc = bytes(objutils.dumps(b, img))
    img = objutils.loads(b, doc, base) if b == "bin" else objutils.loads(b, doc)
    return doc, snap(img)


def run_case(kind, p):
    import objutils

    if kind == "contents":
        a, b, n = p
        docs = []
        for what, fill in FILLS.items():
            data = fill(n)
            assert len(data) == n
            doc, got = pair(a, b, data, 0x1F0)
            check_eq(got, ((0x1F0, data),), f"{n} bytes, {what}: {a} -> {b}")
            docs.append(doc)
        return hash(tuple(docs))
    if kind == "many":
        a, b, n = p
        recs = [(3 + 0x20 * i, pattern(1 + i % 20, i)) for i in range(n)]
        if n > 100:
            recs = recs[::-1]
        img = objutils.loads(a, CODECS[a].encode(recs, {}))
        want = tuple(sorted(recs))
        check_eq(snap(img), want, f"{a}: {n} sections")
        doc = bytes(objutils.dumps(b, img))
        check_eq(snap(objutils.loads(b, doc)), want, f"{n} sections, {a} -> {b}")
        return hash(doc)
    a, b, c, spec, (r1, r2) = p
    want = normalize_spec(spec)
    base = want[0][0]
    recs = [(x, pattern(n, s)) for x, n, s in spec]

    def save(name, img, r):
        if name == "bin" or not CODECS[name].rows:
            return bytes(objutils.dumps(name, img))
        return bytes(objutils.dumps(name, img, row_length=r))

    def load(name, doc):
        return objutils.loads(name, doc, base) if name == "bin" else objutils.loads(name, doc)

    doc = want[0][1] if a == "bin" else CODECS[a].encode(recs, {})
    img = load(a, doc)
    check_eq(snap(img), want, f"loading {a}")
    doc2 = save(b, img, r1)
    img2 = load(b, doc2)
    check_eq(snap(img2), want, f"{a} -> {b}")
    doc3 = save(c, img2, r2)
    img3 = load(c, doc3)
    check_eq(snap(img3), want, f"{a} -> {b} -> {c}")
    check(img == img2 and img2 == img3, "images differ after conversion")
    check_eq(save(b, img3, r1) if meta_free(a, b, c) else doc2, doc2, f"{b} document after the detour over {c}")
    return hash((doc2, doc3))


def meta_free(*names):
    return "srec" not in names  # S-Records carry headers along
