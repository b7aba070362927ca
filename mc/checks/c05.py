"""C05: whatever a format cannot express is refused, whatever it can express is accepted."""

import itertools

from mc import images
from mc.core import check, check_eq, expect_raises, pattern
from mc.refcodec import CODECS, srec_parse
from mc.refmem import cells_of, normalize, snap

ID = "C05"
LEVEL = "exploration"
RULE = (
    "Images ending 1..N addresses below, at and beyond the address limit of every codec (one and several sections, bare "
    "sections), images starting below address zero, and every row length around the record capacity; accepted documents must denote the whole image."
)
ASSUMPTIONS = ["limits: 16 bit (20 bit extended Tektronix, 32 bit Intel HEX and S-Records), 255 bytes per record minus overhead"]

NAMES = [n for n in CODECS if n != "shf"]


def srec_capacity(top_addr):
    return 252 if top_addr < 1 << 16 else 251 if top_addr < 1 << 24 else 250


def capacity(name, top_addr):
    return srec_capacity(top_addr) if name == "srec" else CODECS[name].max_row


def spaces(tier):
    deltas = [*range(-18, 19), 255, 256, 4096, 65535, 65536, 1 << 20, 1 << 31, 1 << 32, 1 << 40]
    lens = [1, 2, 3, 15, 16, 17, 32, 255, 256]

    def limit():
        for name in NAMES:
            top = images.top_of(name)
            for d in deltas:
                for n in lens:
                    a = top + d - n  # last address is top + d - 1
                    if a >= 0:
                        for form in ("image", "section", "second", "low+high", "three"):
                            for r in (4, 16):
                                yield [name, a, n, form, r]

    def below():
        for name in NAMES:
            for a in (-1, -2, -15, -16, -17, -255, -256, -257, -65535, -65536, -65537, -(1 << 20), -(1 << 24), -(1 << 31), -(1 << 32), -(1 << 64)):
                for n in sorted({1, 16, 17, min(-a, 70000), min(-a + 1, 70000), min(-a + 300, 70000)}):
                    for form in ("image", "section", "first"):
                        yield [name, a, n, form]

    def row():
        for name in NAMES:
            bases = [0x100]
            if name == "srec":
                bases += [0x10000, 0xFFFF00, 0x1000000]
            for base in bases:
                cap = capacity(name, base + 300)
                R = [*range(1, 21), *(range((cap or 300) - 20, (cap or 300) + 21)), 256, 257, 300, 511, 512, 1000, 65536]
                for r in sorted({x for x in R if x > 0}):
                    for n in sorted({1, 5, 16, r - 1, r, r + 1, 2 * r, (cap or 255) - 1, cap or 255, (cap or 255) + 1, 600}):
                        if 0 < n <= 2000:
                            yield [name, base, n, r]

    def bad_row():
        for name in NAMES:
            for r in (0, -1, -16):
                yield [name, r]

    def unknown():
        for name in NAMES:
            for kw in ("no_such_option", "rowlength", "s5recordx"):
                yield [name, kw]

    def srec_types():
        tops = [0, 1, 0xFF, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0xFFFFFE, 0xFFFFFF, 0x1000000, 0x7FFFFFFF, 0xFFFFFFFF]
        for t in (1, 2, 3, 0, 4, 5, 7, -1):
            for top in tops:
                for n in (1, 4, 20):
                    for start in (None, 0, 0xFFFF, 0x10000, 0xFFFFFF, 0x1000000, 0xFFFFFFFF, 1 << 32, -1, -(1 << 16), -(1 << 32)):
                        if top - n + 1 >= 0:
                            yield [t, top, n, start]

    def srec_meta():
        """Header and termination records which come from the meta data of the image."""
        for t in (1, 2, 3):
            for pos in (0, 1, 2):
                for n in (0, 1, 16, 250, 251, 252, 253, 254, 255, 256, 300, 508, 1000, 65536):
                    yield [t, pos, n, 0x1234, None]
                for a in (0, 0xFFFF, 0x10000, 0x123456, 1 << 32, -1):
                    yield [t, pos, 3, a, None]
            for a in (0, 0xFFFF, 0x10000, 0xFFFFFF, 0x1000000, 0xFFFFFFFF, 1 << 32, 1 << 64, -1):
                yield [t, 0, 3, 0, a]

    def empties():
        """Sections without content, anywhere: they hold no address."""
        for name in CODECS:
            top = images.top_of(name)
            tops = [0x100, top] + ([1 << 16, 1 << 24] if name == "srec" else [1 << 16] if top > 1 << 16 else [])
            for t in tops:
                for d in (-17, -1, 0, 1, 2, 16, 17):
                    for n in (1, 2, 32):
                        for where in itertools.product(("none", "same", "after", "inside", "before", "first"), repeat=2):
                            if where[0] <= where[1]:
                                yield [name, t + d - n, n, list(where)]

    return {"empties": empties, "srec_meta": srec_meta, "limit": limit, "below": below, "row": row, "bad_row": bad_row, "unknown": unknown, "srec_types": srec_types}


def run_case(kind, p):
    import objutils
    from objutils import hexfile

    if kind == "empties":
        name, a, n, where = p
        top = images.top_of(name) if name != "shf" else 1 << 64
        secs = [(a - 0x20, pattern(5, 2)), (a, pattern(n, 1))]
        spots = {"same": a, "after": a + n, "inside": a + n // 2, "before": a - 3, "first": a - 0x20}
        extra = [objutils.Section(spots[w]) for w in where if w != "none"]
        out = []
        for order in (0, 1):
            both = [objutils.Section(x, y) for x, y in secs]
            img = objutils.Image(extra + both if order else both + extra, join=False)
            if a + n > top:
                expect_raises((hexfile.AddressRangeToLargeError,), objutils.dumps, name, img, _what=f"{name}: image up to {a + n - 1:#x}, empty sections {where}")
                out.append("refused")
                continue
            doc = bytes(objutils.dumps(name, img))
            check_eq(sorted(cells_of(CODECS[name].decode(doc)).items()), sorted(cells_of(secs).items()), f"{name} image up to {a + n - 1:#x} with empty sections {where}")
            check_eq(normalize(cells_of(snap(objutils.loads(name, doc)))), tuple(secs), f"{name} image with empty sections {where}, read back")
            out.append(doc)
        return out
    if kind == "limit":
        name, a, n, form, r = p
        top = images.top_of(name)
        secs = [(a, pattern(n, 1))]
        if form == "second":
            if a < 64:
                return None
            secs.insert(0, (0x10, pattern(7, 2)))
        elif form == "low+high":
            if a < 0x200:
                return None
            secs.insert(0, (a - 0x101, pattern(0x100, 3)))
        elif form == "three":
            if a < 0x400:
                return None
            secs.insert(0, (a - 0x30, pattern(0x10, 3)))
            secs.insert(0, (0, pattern(0x10, 4)))
        secs.sort()
        if form == "section":
            obj = objutils.Section(a, pattern(n, 1))
        else:
            obj = images.make_image(secs)
        last = a + n - 1
        if last >= top:
            expect_raises((hexfile.AddressRangeToLargeError,), objutils.dumps, name, obj, r, _what=f"{name}: image up to {last:#x}")
            return "refused"
        doc = bytes(objutils.dumps(name, obj, r))
        check_eq(sorted(cells_of(CODECS[name].decode(doc)).items()), sorted(cells_of(secs).items()), f"{name} image up to {last:#x}")
        check_eq(snap(objutils.loads(name, doc)), tuple(secs), f"{name} image up to {last:#x}, read back")
        return doc
    if kind == "below":
        name, a, n, form = p
        secs = [(a, pattern(n, 1))]
        if form == "first":
            secs.append((max(a + n + 3, 0x20), pattern(9, 2)))
        obj = objutils.Section(*secs[0]) if form == "section" else images.make_image(secs)
        expect_raises((hexfile.AddressRangeToLargeError,), objutils.dumps, name, obj, _what=f"{name}: image from {a}")
        return "refused"
    if kind == "row":
        name, base, n, r = p
        secs = ((base, pattern(n, 5)),)
        img = images.make_image(secs)
        cap = capacity(name, base + n - 1)
        if cap is not None and min(n, r) > cap:
            expect_raises((hexfile.InvalidRecordLengthError,), objutils.dumps, name, img, r, _what=f"{name}: rows of {min(n, r)} bytes")
            return "refused"
        doc = bytes(objutils.dumps(name, img, r))
        recs = CODECS[name].decode(doc)
        check(max(len(d) for _, d in recs) <= r, "%s: record longer than the row length", name)
        check_eq(cells_of(recs), cells_of(secs), f"{name} document with rows of {r} bytes")
        return len(recs)
    if kind == "bad_row":
        name, r = p
        img = images.make_image(((0x100, pattern(20, 1)),))
        expect_raises((ValueError,), objutils.dumps, name, img, r, _what=f"{name}: row length {r}")
        return "refused"
    if kind == "unknown":
        name, kw = p
        img = images.make_image(((0x100, pattern(20, 1)),))
        expect_raises((AttributeError, TypeError, ValueError), objutils.dumps, name, img, 16, **{kw: 1}, _what=f"{name}: option {kw}")
        return "refused"
    if kind == "srec_meta":
        from objutils import srec

        t, pos, n, a, start = p
        secs = ((0x100, pattern(20, 1)),)
        img = images.make_image(secs)
        headers = [(i, pattern(i + 3, i)) for i in range(3)]
        headers[pos] = (a, pattern(n, 9))
        img.meta = {srec.S0: [hexfile.MetaRecord(srec.S0, x, bytearray(d)) for x, d in headers]}
        kws = {}
        if start is not None:
            key = {1: srec.S9, 2: srec.S8, 3: srec.S7}[t]
            img.meta[key] = [hexfile.MetaRecord(key, start, None)]
            kws["start_address"] = 0
        before = snap(img)
        if n > 252:
            expect_raises((hexfile.InvalidRecordLengthError,), objutils.dumps, "srec", img, record_type=t, _what=f"header of {n} bytes")
            out = "refused"
        elif not 0 <= a <= 0xFFFF or start is not None and not 0 <= start < 1 << 8 * (t + 1):
            expect_raises((hexfile.AddressRangeToLargeError,), objutils.dumps, "srec", img, record_type=t, **kws, _what=f"header at {a:#x}, start address {start}")
            out = "refused"
        else:
            doc = bytes(objutils.dumps("srec", img, record_type=t, **kws))
            recs = srec_parse(doc)
            want = [(0, x, d) for x, d in headers] + [(t, 0x100, secs[0][1][:16]), (t, 0x110, secs[0][1][16:])]
            want += [({1: 9, 2: 8, 3: 7}[t], start, b"")] if start is not None else []
            check_eq([(x, y, bytes(z)) for x, y, z in recs], want, "records")
            out = doc
        check_eq(snap(img), before, "image after saving")
        return out
    if kind == "srec_types":
        t, top, n, start = p
        secs = ((top - n + 1, pattern(n, 1)),)
        img = images.make_image(secs)
        kws = {"record_type": t}
        if start is not None:
            kws["start_address"] = start
        if t not in (1, 2, 3):
            expect_raises((hexfile.Invalidrecord_typeError,), objutils.dumps, "srec", img, **kws, _what=f"record type {t}")
            return "refused"
        if (start or 0) < 0 or max(top, start or 0) >= 1 << 8 * (t + 1):
            expect_raises((hexfile.AddressRangeToLargeError,), objutils.dumps, "srec", img, **kws, _what=f"S{t} up to {top:#x}")
            return "refused"
        doc = bytes(objutils.dumps("srec", img, **kws))
        check_eq(cells_of(CODECS["srec"].decode(doc)), cells_of(secs), f"S{t} document up to {top:#x}")
        check(all(ln[1:2] == str(t).encode() for ln in doc.split()[:1]), "record type %d not honoured", t)
        return doc
