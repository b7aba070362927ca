"""C03: the readers accept every well-formed document and load exactly what it denotes."""

import itertools

from mc import images
from mc.core import HarnessError, check, check_eq, pattern
from mc.refcodec import CODECS, Malformed, srec_record
from mc.refmem import normalize, snap

ID = "C03"
LEVEL = "exploration"
RULE = (
    "Documents are produced by independent encoders: all ways to cut a byte range into records, all record orders, record "
    "sizes, addresses and per-format styles (letter case, line ends, extended addressing, terminators, continuation lines)."
)
ASSUMPTIONS = ["records of a document do not overlap", "styles are those every reader of the family documents or its tests show"]

COMMON = [{}, {"lower": 1}, {"eol": "\r\n"}, {"last_eol": False}]
STYLES = {
    "ihex": COMMON
    + [
        {"always": 1},
        {"eof": False},
        {"start": 3},
        {"start": 5},
        {"ext": "segment"},
        {"ext": "segment", "always": 1},
        {"ext": "segment", "segmask": 0x0FF},
        {"ext": "segment", "segmask": 0},
        {"empty": 1},
    ],
    "srec": COMMON
    + [{"header": 1}, {"count": 1}, {"term": 1}, {"term": 0x1235}, {"mixed": 1}, {"type": 2}, {"type": 3, "term": 1, "count": 1, "header": 1}, {"header": 2, "empty": 1}],
    "titxt": COMMON + [{"always": 1}, {"trail": " "}, {"digits": 8}, {"implied": 1}],
    "ash": [{}, {"lower": 1}, {"eol": "\r\n"}, {"sep": ","}, {"sep": "%"}, {"sep": "'"}, {"always": 1}, {"mark": "."}, {"digits": 8}, {"stx_own_line": False}, {"implied": 1}],
    "emon52": COMMON,
    "tek": COMMON + [{"eof": False}],
    "etek": COMMON,
    "sig": COMMON + [{"eof": False}],
    "mostec": COMMON + [{"eof": False}],
    "rca": [{}, {"lower": 1}, {"eol": "\r\n"}, {"eof": False}],
    "cosmac": [{}, {"lower": 1}, {"eol": "\r\n"}, {"cont": 1}, {"cont": 1, "implied": 1}],
    "fpc": [{}, {"eol": "\r\n"}, {"inc": 1}, {"inc": 1, "implied": 1}, {"last_eol": False}],
    "shf": [{}, {"lower": 1}, {"wrap": 1}, {"word_size": 2}, {"word_size": 4}, {"word_size": 16}, {"sums": "upper"}, {"sums": "spaced"}, {"empty": 1}, {"empty": 2}],
}


def compositions(n):
    for mask in range(1 << (n - 1)):
        out, k = [], 1
        for i in range(n - 1):
            if mask >> i & 1:
                out.append(k)
                k = 1
            else:
                k += 1
        out.append(k)
        yield out


def spaces(tier):
    def partitions():
        """A range of n bytes cut into records in every way, in every order (up to 4 records), with or without a hole."""
        n = 5 if tier == "quick" else 7
        for name in CODECS:
            top = images.top_of(name)
            bases = [0, 0xFFFD if top > 1 << 16 else 0xFFF0]
            if top > 1 << 20:
                bases += [0xFFFFE, 0x8000FFFD]
            for si, _ in enumerate(STYLES[name]):
                for base in bases:
                    for comp in compositions(n):
                        perms = list(itertools.permutations(range(len(comp)))) if len(comp) <= 4 else [tuple(range(len(comp))), tuple(range(len(comp)))[::-1]]
                        for perm in perms:
                            for hole in (None, 0, len(comp) - 1) if len(comp) > 1 else (None,):
                                yield [name, si, base, comp, list(perm), hole]

    def sizes():
        for name, c in CODECS.items():
            limit = c.max_row or 300
            A = images.addresses(name)
            for si, _ in enumerate(STYLES[name]):
                for n in range(1, limit + 1):
                    if tier == "quick" and si > 1 and n > 40 and n < limit - 5 and n % 16:
                        continue
                    yield [name, si, [[A[(n * 7 + si) % len(A)], n, n]]]
                for a in A:
                    for n in (1, 2, 3, 4, 16, 31, 32):
                        yield [name, si, [[a, n, 3]]]

    def far():
        """Two and three records far apart, ascending, descending and mixed."""
        for name in CODECS:
            A = sorted(images.addresses(name))
            for si, _ in enumerate(STYLES[name]):
                for a, b in itertools.permutations(A, 2):
                    if abs(a - b) >= 4:
                        yield [name, si, [[a, 4, 1], [b, 4, 2]]]
                if tier == "thorough" or si in (0, len(STYLES[name]) - 1):
                    for t in itertools.permutations(A[:: max(1, len(A) // 9)], 3):
                        if min(abs(x - y) for x, y in itertools.combinations(t, 2)) >= 3:
                            yield [name, si, [[x, 3, i] for i, x in enumerate(t)]]

    def values():
        for name in CODECS:
            for r, a, row in images.data_values(name, tier):
                if len(row) <= (CODECS[name].max_row or 300):
                    yield [name, a, row]

    def srec_counts():
        for width in (2, 3, 4):
            for count in (0, 1, 3, 0xFF, 0x100, 0xFFFF, 0x10000, 0xFFFFFF, 0x1000000, 0xFFFFFFFF):
                if count < 1 << 8 * width:
                    for term in (7, 8, 9):
                        yield [width, count, term]

    def blanks():
        for name in CODECS:
            if name not in ("shf",):
                for pos in range(5):
                    for text in ("", "\r", " "):
                        yield [name, pos, text]

    def many():
        """Documents of many records: addresses in order, backwards, inside out, alternating between two or three areas."""
        counts = (100, 255, 256, 257, 300, 1001) if tier == "quick" else (100, 127, 128, 255, 256, 257, 300, 999, 1000, 1001, 2001, 5000)
        for name in CODECS:
            for si, _ in enumerate(STYLES[name]):
                for count in counts:
                    for order in ("asc", "desc", "inout", "areas"):
                        if tier == "thorough" or si == 0 or count in (257, 1001) and order in ("asc", "areas"):
                            for step, n in ((4, 4), (5, 3), (40, 32)):
                                yield [name, si, count, order, step, n]

    return {"many": many, "partitions": partitions, "sizes": sizes, "far": far, "values": values, "srec_counts": srec_counts, "blanks": blanks}


def load(name, data, records):
    import objutils

    cells = {a + i: b for a, d in records for i, b in enumerate(d)}
    want = normalize(cells)
    for variant in (data,):
        img = objutils.loads(name, variant)
        check_eq(snap(img), want, f"{name} document {data[:200]!r}")
        check_eq(len(img), len(cells), "length of the image")
    return want


def run_case(kind, p):
    if kind == "srec_counts":
        width, count, term = p
        recs = [(0x1000, pattern(4, 1)), (0x1010, pattern(7, 2))]
        lines = [srec_record(1, a, d) for a, d in recs] + [srec_record(5, count, width=width), srec_record(term, 0x80)]
        return load("srec", ("\n".join(lines) + "\n").encode(), recs)
    if kind == "blanks":
        name, pos, text = p
        recs = [(0x100, pattern(4, 1)), (0x110, pattern(4, 2)), (0x104, pattern(4, 3))]
        doc = CODECS[name].encode(recs, {}).decode()
        lines = doc.split("\n")
        lines.insert(min(pos, len(lines) - 1), text)
        return load(name, "\n".join(lines).encode(), recs)
    if kind == "values":
        name, a, row = p
        recs = [(a, bytes(row))]
        return load(name, CODECS[name].encode(recs, {}), recs)
    name, si = p[0], p[1]
    style = STYLES[name][si]
    if kind == "partitions":
        _, _, base, comp, perm, hole = p
        recs, a = [], base
        for i, n in enumerate(comp):
            if i != hole:
                recs.append((a, pattern(n, i)))
            a += n
        order = [i for i in perm if i != hole]
        idx = {i: k for k, i in enumerate(j for j in range(len(comp)) if j != hole)}
        recs = [recs[idx[i]] for i in order]
        if any(x + len(d) > images.top_of(name) for x, d in recs):
            return None
    elif kind == "many":
        _, _, count, order, step, n = p
        idx = list(range(count))
        if order == "desc":
            idx.reverse()
        elif order != "asc":
            idx = [(count // 2 + (k + 1) // 2 * (1 if k & 1 else -1)) % count for k in range(count)] if order == "inout" else [k for i in range(-(-count // 3)) for k in (i, i + -(-count // 3), i + 2 * -(-count // 3)) if k < count and not (k >= -(-count // 3) and k == i)]
            if sorted(idx) != list(range(count)):
                raise HarnessError("order")
        far = 0x10000 if images.top_of(name) > 1 << 22 and order == "areas" else 0
        third = -(-count // 3)
        recs = [(i * step + i // third * far, pattern(n, i)) for i in idx]
    else:
        recs = [(a, pattern(n, s)) for a, n, s in p[2]]
    top = images.top_of(name)
    recs = [(a, d) for a, d in recs if a + len(d) <= top]
    if name == "ihex":
        if style.get("ext") == "segment":
            recs = [(a, d) for a, d in recs if a + len(d) <= 0x100000]
        recs = [x for a, d in recs for x in split64k(a, d, style)]
    if name == "srec" and style.get("type") == 2:
        recs = [(a, d) for a, d in recs if a + len(d) <= 1 << 24]
    if style.get("digits", 4) == 4 and name in ("titxt", "ash"):
        recs = [(a, d) for a, d in recs if a + len(d) <= 1 << 16]
    if not recs:
        return None
    try:
        doc = CODECS[name].encode(recs, style)
    except (Malformed, OverflowError):
        return None  # the style cannot express these records
    return load(name, doc, recs)


def split64k(a, d, style):
    if style.get("ext") == "segment":
        return [(a, d)]
    room = 0x10000 - a % 0x10000
    return [(a, d)] if len(d) <= room else [(a, d[:room]), (a + room, d[room:])]
