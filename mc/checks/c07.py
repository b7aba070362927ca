"""C07: S-Record options and meta data."""

import itertools

from mc import images
from mc.core import check, check_eq, pattern
from mc.refcodec import CODECS, srec_parse, srec_record
from mc.refmem import snap

ID = "C07"
LEVEL = "exploration"
RULE = (
    "All combinations of record type, count record, start address, header records and row length over images with 1..N "
    "records; the sequence of written records is compared with the one the S-Record format prescribes, then read back."
)
ASSUMPTIONS = ["a termination record in the meta data of an image is used only with the start_address option, and takes precedence over its value"]

HEADERS = [[], [[0, "HDR"]], [[0x1234, "x"]], [[0, "A" * 20], [0xFFFF, "\x00\xff"]], [[0, "n" * 252]], [[0, ""]], [[0x12, ""], [5, "x"], [0xFFFF, ""]]]


def spaces(tier):
    def combos():
        shapes = [
            [[0x100, 1, 1]],
            [[0x100, 40, 1]],
            [[0, 16, 1], [0x8000, 33, 2]],
            [[0xFFF0, 16, 1]],
            [[0x10000, 5, 1]],
            [[0xFFFFF0, 16, 1]],
            [[0x1000000, 20, 1]],
            [[0xFFFFFF00, 256, 1]],
        ]
        starts = [None, 0, 1, 0x1234, 0xFFFF, 0x10000, 0x123456, 0xFFFFFF, 0x1000000, 0xFFFFFFFF]
        for t, s5, start, h, r in itertools.product((None, 1, 2, 3), (False, True), starts, range(len(HEADERS)), (1, 16, 32, 200)):
            for shape in shapes:
                top = max(a + n - 1 for a, n, _ in shape)
                auto = 1 if top < 1 << 16 else 2 if top < 1 << 24 else 3
                typ = t or auto
                if typ < auto or (start or 0) >= 1 << 8 * (typ + 1):
                    continue  # refused, see C05
                yield [t, s5, start, h, r, shape]

    def counts():
        """Record counts around the width of the S5 count."""
        for n in (1, 2, 254, 255, 256, 257, 1000, 4095, 4096, 4097, 32768, 65534, 65535, 65536, 65537, 70000):
            for t in (1, 2, 3):
                if n <= 1 << 8 * (t + 1):
                    yield [n, t]
        if tier == "thorough":
            for n in range(2, 66000, 500):
                yield [n, 1 if n <= 65536 else 2]

    def sizes():
        """Several sections and rows around the widths of fields, with all options at once."""
        for t in (None, 1, 2, 3):
            for n in (100, 255, 256, 257, 300, 1000):
                for r in (1, 2, 16, 128, 250):
                    for start in (None, 0x8000):
                        for h in (0, 1, 4):
                            yield [t, True, start, h, r, [[0, n, 1], [0x1000, 1, 2], [0x1003, n, 3], [0x8000 - n, n, 4]]]
        for k in (2, 3, 17, 255, 256, 257, 300):
            for t in (None, 1, 3):
                for start in (None, 5):
                    yield [t, True, start, ["many", k], 16, [[0x10, 40, 1]]]
                    yield [t, True, start, 1, 16, [[i * 0x20, 3 + i % 20, i] for i in range(k)]]

    def again():
        """A document does not depend on the documents written or read before by the same codec."""
        opts = [
            {},
            {"s5record": True},
            {"start_address": 0x1234},
            {"record_type": 2},
            {"record_type": 3, "s5record": True, "start_address": 0x12345678},
            {"record_type": 1, "start_address": 0x10000},  # refused
            {"record_type": 9},  # refused
        ]
        for a in range(len(opts)):
            for b in range(len(opts)):
                for between in ("nothing", "load", "other image"):
                    yield [opts[a], opts[b], between]

    def sources():
        """Headers and terminators of independent documents."""
        for h in HEADERS:
            for t in (1, 2, 3):
                for start in (None, 0, 0x8000, 0xFFFF, 0x10000, 0x123456, 0xFFFFFF, 0x1000000, 0xFEDCBA98):
                    if start is not None and start >= 1 << 8 * (t + 1):
                        continue
                    for s5 in (False, True):
                        yield [h, t, start, s5]

    return {"combos": combos, "sizes": sizes, "again": again, "counts": counts, "sources": sources}


def header_meta(headers):
    from objutils.hexfile import MetaRecord
    from objutils.srec import S0

    return {S0: [MetaRecord(S0, a, bytearray(t.encode("latin1"))) for a, t in headers]} if headers else {}


def run_case(kind, p):
    import objutils
    from objutils import srec

    if kind == "again":
        o1, o2, between = p
        def write(how, img, opts):
            try:
                return bytes(how(img, opts))
            except Exception as e:
                return type(e).__name__

        def fresh():
            img = images.make_image(images.build([[0x100, 40, 1], [0x300, 5, 2]]))
            img.meta = header_meta(HEADERS[1])
            return img

        other = images.make_image(images.build([[0x12345678, 3, 1]]))
        plain = lambda img, opts: objutils.dumps("srec", img, **opts)  # noqa: E731
        want = write(plain, fresh(), o2)
        img = fresh()
        first = write(plain, img, o1)
        if between == "load" and first[:1] == b"S":
            objutils.loads("srec", first)
        elif between == "other image":
            write(plain, other, {"s5record": True, "start_address": 7})
        check_eq(write(plain, img, o2), want, f"document with {o2} after one with {o1}")
        check_eq(write(plain, fresh(), o2), want, f"document with {o2} after one with {o1}, fresh image")
        return want
    if kind == "counts":
        n, t = p
        img = images.make_image(((0, pattern(n, 1)),)) if n <= 256 or t > 1 else images.make_image(((0, pattern(n, 1)),))
        doc = bytes(objutils.dumps("srec", img, row_length=1, record_type=t, s5record=True))
        recs = srec_parse(doc)
        check_eq(len(recs), n + 1, "records")
        check_eq((recs[-1][0], recs[-1][1]), (5, n), "count record")
        check_eq(snap(objutils.loads("srec", doc)), ((0, pattern(n, 1)),), "read back")
        return n
    if kind == "sources":
        headers, t, start, s5 = p
        recs = [(0x100, pattern(20, 1)), (0x8000, pattern(3, 2))]
        lines = [srec_record(0, a, x.encode("latin1")) for a, x in headers] + [srec_record(t, a, d) for a, d in recs]
        if s5:
            lines.append(srec_record(5, 2, width=2))
        term = {1: 9, 2: 8, 3: 7}[t]
        if start is not None:
            lines.append(srec_record(term, start))
        img = objutils.loads("srec", "\n".join(lines) + "\n")
        check_eq(snap(img), tuple(recs), "sections")
        got = [(m.address, bytes(m.chunk).decode("latin1")) for m in img.meta.get(srec.S0, [])]
        check_eq(got, [tuple(h) for h in headers], "header records in the meta data")
        key = {9: srec.S9, 8: srec.S8, 7: srec.S7}[term]
        check_eq([m.address for m in img.meta.get(key, [])], [] if start is None else [start], "start address in the meta data")
        check_eq([m.address for m in img.meta.get(srec.S5, [])], [2] if s5 else [], "record count in the meta data")
        kws = {"record_type": t, "s5record": s5}
        if start is not None:
            kws["start_address"] = start
            other = srec_parse(objutils.dumps("srec", img, 32, record_type=t, start_address=start ^ 0x101))
            check_eq((other[-1][0], other[-1][1]), (term, start), "termination record of the meta data")
        out = srec_parse(objutils.dumps("srec", img, 32, **kws))
        check_eq([(x, a, bytes(d)) for x, a, d in out], [(x, a, bytes(d)) for x, a, d in srec_parse("\n".join(lines).encode())], "document written back")
        return len(out)
    t, s5, start, h, r, shape = p
    secs = images.build(shape)
    img = images.make_image(secs)
    headers = HEADERS[h] if isinstance(h, int) else [[i, f"header {i}"] for i in range(h[1])]
    img.meta = header_meta(headers)
    kws = {}
    if t:
        kws["record_type"] = t
    if s5:
        kws["s5record"] = True
    if start is not None:
        kws["start_address"] = start
    top = max(a + len(d) - 1 for a, d in secs)
    typ = t or (1 if top < 1 << 16 else 2 if top < 1 << 24 else 3)
    want = [(0, a, x.encode("latin1")) for a, x in headers]
    rows = [(typ, a + i, d[i : i + r]) for a, d in secs for i in range(0, len(d), r)]
    want += rows
    if s5:
        want.append((5, len(rows), b""))
    if start is not None:
        want.append(({1: 9, 2: 8, 3: 7}[typ], start, b""))
    doc = bytes(objutils.dumps("srec", img, row_length=r, **kws))
    check_eq([(x, a, bytes(d)) for x, a, d in srec_parse(doc)], want, "records")
    back = objutils.loads("srec", doc)
    check_eq(snap(back), secs, "read back")
    check_eq([(m.address, bytes(m.chunk)) for m in back.meta.get(srec.S0, [])], [(a, x.encode("latin1")) for a, x in headers], "headers read back")
    return hash(doc)
