"""M02: no hidden sharing: objects handed in, handed out or derived do not change each other."""

import copy
import itertools
import pickle
from array import array

from mc import core
from mc.core import STATS, check, check_eq, pattern
from mc.refmem import normalize, snap

ID = "M02"
LEVEL = "model_checking"
RULE = (
    "For every kind of source object and every way of deriving sections, images, joined lists, read results and documents "
    "from it: all sequences of mutations up to the depth, each applied to one party; all other parties must stay as the "
    "model (independent copies) says."
)
BOUNDS = {"quick": "mutation sequences of length 3 over up to 9 mutations; sources and results of 28 sizes from 1 to 131072 bytes", "thorough": "length 4"}
CASE_TIMEOUT = 300
ASSUMPTIONS = ["the section list of an image is its own live view", "copy.copy() copies one level, as Python defines it"]

SOURCES = ["bytes", "bytearray", "list", "tuple", "arrayB", "arrayH", "memoryview", "memoryview_rw", "section", "str", "ndarray", "range"]


SIZES = [1, 15, 16, 17, 64, 127, 128, 129, 255, 256, 257, 512, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 100000, 131072]


def make_source(kind, raw=bytes([0x41, 0x42, 0x43, 0x44, 0x45, 0x46])):
    import objutils

    if kind == "bytes":
        return raw, raw, None
    if kind == "bytearray":
        x = bytearray(raw)
        return x, raw, [lambda: x.__setitem__(0, 0xEE), lambda: x.extend(b"zz"), lambda: x.clear()]
    if kind == "list":
        x = list(raw)
        return x, raw, [lambda: x.__setitem__(0, 0xEE), lambda: x.append(1)]
    if kind == "tuple":
        return tuple(raw), raw, None
    if kind == "arrayB":
        x = array("B", raw)
        return x, raw, [lambda: x.__setitem__(0, 0xEE), lambda: x.append(1)]
    if kind == "arrayH":
        x = array("H")
        x.frombytes(raw[: len(raw) // 2 * 2])
        return x, x.tobytes(), [lambda: x.__setitem__(0, 0xEEEE)]
    if kind == "memoryview":
        return memoryview(raw), raw, None
    if kind == "memoryview_rw":
        b = bytearray(raw)
        x = memoryview(b)
        return x, raw, [lambda: x.__setitem__(0, 0xEE)]
    if kind == "section":
        x = objutils.Section(0x500, raw)
        return x, raw, [lambda: x.write(0x500, b"\xee"), lambda: x.data.extend(b"zz")]
    if kind == "str":
        return raw.decode(), raw, None
    if kind == "ndarray":
        import numpy as np

        x = np.frombuffer(raw, dtype=np.uint8).copy()
        return x, raw, [lambda: x.__setitem__(0, 0xEE)]
    if kind == "range":
        return range(0x41, 0x47), raw, None
    raise core.HarnessError(kind)


def spaces(tier):
    depth = 3 if tier == "quick" else 4

    def derive():
        for src in SOURCES:
            for way in ("section", "insert", "write"):
                yield [src, way, depth]

    def relations():
        for r in ("sections->image", "image->image", "two images", "join_sections", "insert section twice", "default sections", "default images", "iter", "unjoined", "image unjoined", "deep copies", "pickles"):
            yield [r, depth]

    def results():
        for op in ("read", "tobytes", "tolist", "read_ndarray", "dumps", "get", "write_ndarray", "write_numeric_array"):
            yield [op]

    def encode():
        from mc.refcodec import CODECS

        for name in [*CODECS, "bin"]:
            for join in (True, False):
                for r in (16, 3):
                    yield [name, join, r]

    def sizes():
        for n in SIZES if tier == "quick" else [*SIZES, 1 << 18, 1 << 20]:
            for src in SOURCES:
                if src != "range":
                    for way in ("section", "image", "insert", "write", "join", "joined", "loads"):
                        yield [n, src, way]

    def reads():
        for n in SIZES if tier == "quick" else [*SIZES, 1 << 18, 1 << 20]:
            for what in ("section", "image", "image of two"):
                yield [n, what]

    return {"derive": derive, "relations": relations, "results": results, "encode": encode, "sizes": sizes, "reads": reads}


def sequences(muts, depth):
    """All mutation sequences; every prefix is checked on the way."""
    return itertools.product(range(len(muts)), repeat=depth)


def run_case(kind, p):
    return {"derive": derive, "relations": relations, "results": results, "encode": encode, "sizes": sizes, "reads": reads}[kind](*p)


def source_view(x):
    import objutils

    if isinstance(x, objutils.Section):
        return (x.start_address, bytes(x.data))
    if isinstance(x, (memoryview,)):
        return bytes(x)
    if hasattr(x, "tobytes"):
        return x.tobytes()
    return x if isinstance(x, (bytes, str, tuple)) else list(x)


def derive(src, way, depth):
    import objutils

    def fresh():
        x, raw, muts = make_source(src)
        sec = img = None
        if way == "section":
            sec = objutils.Section(0x100, x)
            get = lambda: bytes(sec.data)  # noqa: E731
            put = sec.write
            a = 0x100
        elif way == "insert":
            img = objutils.Image()
            img.insert_section(x, 0x100)
            get = lambda: bytes(img[0].data)  # noqa: E731
            put = img.write
            a = 0x100
        else:
            img = objutils.Image([objutils.Section(0xF0, bytes(32))])
            img.write(0x100, x)
            get = lambda: bytes(img.read(0x100, len(raw)))  # noqa: E731
            put = img.write
            a = 0x100
        return x, raw, muts or [], get, put, a

    n = 0
    x, raw, muts, get, put, a = fresh()
    check_eq(get(), raw, f"bytes taken from {src} by {way}")
    nsrc = len(muts)
    for seq in sequences(range(nsrc + 2), depth):
        x, raw, muts, get, put, a = fresh()
        model = bytearray(raw)
        before = source_view(x)
        for m in seq:
            if m < nsrc:
                try:
                    muts[m]()
                except (IndexError, BufferError):
                    pass
                before = source_view(x)
            else:
                put(a + m - nsrc, bytes([0x30 + m]))
                model[m - nsrc] = 0x30 + m
            check_eq(get(), bytes(model), f"{way} from {src} after {seq}")
            check_eq(source_view(x), before, f"the {src} passed to {way} after {seq}")
            n += 1
            core.visit((src, way, bytes(model), repr(before)))
        STATS.traces += 1
    return n


def relations(rel, depth):
    import objutils
    from objutils import Image, Section
    from objutils.section import join_sections

    def fresh():
        """objects: list of (observe, mutate...) parties, each with an independent model."""
        s1, s2, s3 = Section(0x100, b"abc"), Section(0x103, b"def"), Section(0x110, b"ghi")
        secs = [s1, s2, s3]

        def sec_party(s):
            return (lambda: (s.start_address, bytes(s.data)), [lambda: s.write(s.start_address, b"!"), lambda: s.data.extend(b"?")])

        def img_party(i, a=0x100):
            return (lambda: (snap(i), i.meta), [lambda: i.write(a, b"#"), lambda: i.insert_section(b"xyz", 0x2000 if 0x2000 not in i else 0x3000)])

        def list_party(lst):
            # The objects in the list are parties of their own.
            return (lambda: [id(s) for s in lst], [lambda: lst.pop(), lambda: lst.reverse()])

        if rel == "sections->image":
            return [sec_party(s1), sec_party(s3), list_party(secs), img_party(Image(secs))]
        if rel == "image->image":
            a = Image(secs)
            return [img_party(a), img_party(Image(a)), img_party(Image(a.sections))]
        if rel == "unjoined":
            return [sec_party(s1), sec_party(s3), list_party(secs), img_party(Image(secs, join=False)), img_party(Image(secs, join=False)), img_party(Image(secs))]
        if rel == "image unjoined":
            a = Image(secs, join=False)
            return [img_party(a), img_party(Image(a, join=False)), img_party(Image(a.sections, join=False))]
        if rel in ("deep copies", "pickles"):
            dup = copy.deepcopy if rel == "deep copies" else lambda x: pickle.loads(pickle.dumps(x))
            a, t = Image(secs, meta={"k": [1]}), dup(s1)
            b, c = dup(a), dup(Image(secs, join=False))
            check(a == b and t == s1 and not a != b, "%s compare equal", rel)
            meta = lambda i: (img_party(i)[0], [*img_party(i)[1], lambda: i.meta["k"].append(2)])  # noqa: E731
            return [sec_party(s1), sec_party(t), meta(a), meta(b), img_party(c)]
        if rel == "two images":
            return [img_party(Image(secs)), img_party(Image(secs)), img_party(Image(tuple(secs)))]
        if rel == "join_sections":
            j = join_sections(secs)
            return [list_party(secs), sec_party(s1), sec_party(s2), sec_party(j[0]), sec_party(j[1])]
        if rel == "insert section twice":
            a, b = Image(), Image()
            a.insert_section(s1, 0x100)
            b.insert_section(s1, 0x100)
            b.insert_section(s1, 0x200)
            return [sec_party(s1), img_party(a), img_party(b)]
        if rel == "default sections":
            a, b = Section(), Section()
            return [(lambda: bytes(a.data), [lambda: a.data.extend(b"1")]), (lambda: bytes(b.data), [lambda: b.data.extend(b"2")])]
        if rel == "default images":
            a, b = Image(), Image()
            return [
                (lambda: (snap(a), dict(a.meta)), [lambda: a.insert_section(b"1", 0x10 * len(a)), lambda: a.meta.update(k=1)]),
                (lambda: (snap(b), dict(b.meta)), [lambda: b.insert_section(b"2", 0x10 * len(b)), lambda: b.meta.update(k=2)]),
            ]
        if rel == "iter":
            a = Image(secs)
            lst = list(a)
            return [(lambda: len(lst), [lambda: lst.pop() if lst else None]), img_party(a)]
        raise core.HarnessError(rel)

    parties = fresh()
    muts = [(i, k) for i, p in enumerate(parties) for k in range(len(p[1]))]
    n = 0
    for seq in sequences(muts, depth):
        parties = fresh()
        views = [repr(p[0]()) for p in parties]
        for m in seq:
            i, k = muts[m]
            try:
                parties[i][1][k]()
            except (IndexError, objutils.image.InvalidAddressError):
                pass
            for j, p in enumerate(parties):
                v = repr(p[0]())
                if j != i:
                    check_eq(v, views[j], f"{rel}: party {j} after mutations {[muts[x] for x in seq]}")
                views[j] = v
            n += 1
            core.visit((rel, views))
        STATS.traces += 1
    return n


def sizes(n, src, way):
    """Sources of many sizes: a byte changed on either side (first, middle, last) stays on that side."""
    import objutils
    from objutils import Image, Section
    from objutils.section import join_sections

    x, raw, _ = make_source(src, pattern(n, 5) if src != "str" else bytes(0x41 + i % 26 for i in range(n)))
    if not raw:
        return "skip"
    if way == "loads" and src not in ("bytes", "bytearray", "memoryview", "memoryview_rw"):
        return "skip"
    before = source_view(x)
    if way == "section":
        made = [Section(0x100, x)]
    elif way == "image":
        made = list(Image([x if src == "section" else Section(0x500, x)]))
    elif way == "insert":
        img = Image()
        img.insert_section(x, 0x100)
        made = list(img)
    elif way == "write":
        img = Image([Section(0x100, bytes(len(raw)))])
        img.write(0x100, x)
        made = list(img)
    elif way == "join":
        made = join_sections([x if src == "section" else Section(0x500, x)])
    elif way == "joined":
        a = x if src == "section" else Section(0x500, x)
        made = list(Image([a, Section(0x500 + len(raw), b"tail")]))
        raw += b"tail"
    else:
        made = list(objutils.loads("bin", x, 0x100))
    check_eq([bytes(m.data) for m in made], [raw], f"bytes taken from {n} bytes of {src} by {way}")
    sec = made[0]
    model = bytearray(raw)
    m = len(raw)
    spots = sorted({0, m // 2, m - 1})
    for i in spots:
        sec.write(sec.start_address + i, bytes([model[i] ^ 0x21]))
        model[i] ^= 0x21
        check_eq(source_view(x), before, f"{n} bytes of {src} after changing what {way} made of it")
    check_eq(bytes(sec.data), bytes(model), "section after the writes")
    if src in ("bytearray", "list", "arrayB", "memoryview_rw", "ndarray", "arrayH"):
        for i in (0, len(x) // 2, len(x) - 1):
            x[i] = x[i] ^ 0x12
            check_eq(bytes(sec.data), bytes(model), f"what {way} made of {n} bytes of {src} after changing those")
    elif src == "section":
        for i in (0, n // 2, n - 1):
            x.write(0x500 + i, bytes([x.data[i] ^ 0x12]))
            check_eq(bytes(sec.data), bytes(model), f"what {way} made of {n} bytes of {src} after changing those")
        x.data.clear()
        check_eq(bytes(sec.data), bytes(model), f"what {way} made of {n} bytes of {src} after clearing those")
    return m


def reads(n, what):
    """Results of many sizes: complete section, all but one byte, one byte."""
    from objutils import Image, Section

    raw = pattern(n, 4)
    other = None
    if what == "section":
        obj = sec = Section(0x100, raw)
    elif what == "image":
        obj = Image([Section(0x100, raw)])
        sec = obj[0]
    else:
        obj = Image([Section(0x100, raw), Section(0x101 + n, b"other")])
        sec, other = obj[0], obj[1]
    model = bytearray(raw)
    for off, m in {(0, n), (0, n - 1), (1, n - 1), (0, 1), (n - 1, 1), (0, n // 2), (n // 2, n - n // 2)}:
        if m < 1:
            continue
        got = {"read": obj.read(0x100 + off, m)}
        got["read_ndarray"] = obj.read_ndarray(0x100 + off, m, "uint8_le", shape=(-1,))
        got["read_numeric_array"] = obj.read_numeric_array(0x100 + off, m, "uint8_le")
        if (off, m) == (0, n):
            got["tobytes"], got["tolist"] = sec.tobytes(), sec.tolist()
        keep = bytes(model[off : off + m])
        for k, r in got.items():
            check_eq(bytes(bytearray(r)), keep, f"{k} of {m} of {n} bytes")
        obj.write(0x100 + off, bytes([model[off] ^ 0x40]))
        model[off] ^= 0x40
        for k, r in got.items():
            check_eq(bytes(bytearray(r)), keep, f"result of {k} of {m} of {n} bytes after a write")
            if isinstance(r, (bytearray, list)):
                r[0] = 0x77
                r[-1] = 0x78
                r.append(1)
            elif k == "read_ndarray" and r.flags.writeable:
                r[:] = 0x79
            check_eq(bytes(sec.data), bytes(model), f"section after changing the result of {k} of {m} of {n} bytes")
    if other is not None:
        check_eq(bytes(other.data), b"other", "the other section")
    a, b = Section(0x100, raw), Section(0x100, raw)
    a.write(0x100, bytes([raw[0] ^ 1]))
    check_eq(bytes(b.data), raw, "a second section made of the same bytes")
    return n


def results(op):
    """Values handed out are copies."""
    import numpy as np
    from objutils import Image, Section

    raw = pattern(16, 3)
    for make in (lambda: Section(0x100, raw), lambda: Image([Section(0x100, raw)])):
        obj = make()
        sec = obj if isinstance(obj, Section) else obj[0]
        if op == "read":
            r = obj.read(0x102, 4)
            r2 = obj.read(0x100, 16)
            keep = bytes(r)
            if isinstance(r, bytearray):
                r[0] ^= 0xFF
                r2.extend(b"x")
            check_eq(bytes(sec.data), raw, "section after changing what read() returned")
            r = obj.read(0x102, 4)
            obj.write(0x102, b"\0\0\0\0")
            check_eq(bytes(r), keep, "value read before a write")
        elif op in ("tobytes", "tolist"):
            r = getattr(sec, op)()
            keep = list(r)
            if op == "tolist":
                r[0] ^= 0xFF
                check_eq(bytes(sec.data), raw, "section after changing the list")
                r = sec.tolist()
            sec.write(0x100, b"\0\0")
            check_eq(list(r), keep, f"{op}() before a write")
        elif op == "read_ndarray":
            for dt in ("uint8_le", "uint16_be", "int32_le"):
                obj = make()
                sec = obj if isinstance(obj, Section) else obj[0]
                r = obj.read_ndarray(0x100, 16, dt, shape=(-1,))
                keep = r.tolist()
                obj.write(0x100, b"\0" * 8)
                check_eq(r.tolist(), keep, "array read before a write")
                if r.flags.writeable:
                    r[:] = 1
                check_eq(bytes(sec.data), b"\0" * 8 + raw[8:], "section after changing the array")
        elif op == "write_ndarray":
            a = np.arange(4, dtype=np.uint16)
            obj.write_ndarray(0x100, a)
            keep = bytes(sec.data)
            a[:] = 0xFFFF
            check_eq(bytes(sec.data), keep, "section after changing the array written")
            obj.write(0x100, b"\1\2")
            check_eq(a.tolist(), [0xFFFF] * 4, "array after writing the section")
        elif op == "write_numeric_array":
            a = [1, 2, 3]
            obj.write_numeric_array(0x100, a, "uint16_le")
            check_eq(a, [1, 2, 3], "list passed to write_numeric_array")
        elif op == "dumps":
            import objutils

            img = Image([Section(0x100, raw)])
            d = objutils.dumps("bin", img)
            if isinstance(d, bytearray):
                d[0] ^= 0xFF
            check_eq(snap(img), ((0x100, raw),), "image after changing its binary dump")
            buf = bytearray(raw)
            img = objutils.loads("bin", buf, 0x100)
            buf[0] ^= 0xFF
            check_eq(snap(img), ((0x100, raw),), "image after changing the buffer it was loaded from")
        elif op == "get":
            img = Image([Section(0x100, raw), Section(0x200, raw)])
            other = Image(img)
            img.get_section(0x105).write(0x105, b"\0")
            check_eq(snap(other), ((0x100, raw), (0x200, raw)), "copy of an image after a write to the original")
            check_eq(bytes(img.read(0x105, 1)), b"\0", "write through get_section")
    return op


def encode(name, join, r):
    """Encoding and decoding leave their operands alone."""
    import objutils
    from objutils import Image, Section
    from mc.refcodec import CODECS

    secs = [Section(0x100, pattern(20, 1)), Section(0x114, pattern(5, 2)), Section(0x200, pattern(3, 3))]
    meta = {"some": ["thing"]}
    img = Image(secs, join=join, meta=meta)
    before = snap(img)
    kws = {"row_length": r} if name in CODECS and CODECS[name].rows else {}
    d1 = bytes(objutils.dumps(name, img, **kws))
    d2 = bytes(objutils.dumps(name, img, **kws))
    check_eq(d2, d1, "second encoding of the same image")
    check_eq(snap(img), before, "image after encoding")
    check_eq(meta, {"some": ["thing"]}, "meta data after encoding")
    if kws:
        sec = Section(0x100, pattern(20, 1))
        objutils.dumps(name, sec, **kws)
        check_eq((sec.start_address, bytes(sec.data)), (0x100, pattern(20, 1)), "section after encoding")
    a = objutils.loads(name, d1, *((0x100,) if name == "bin" else ()))
    b = objutils.loads(name, d1, *((0x100,) if name == "bin" else ()))
    keep = snap(b)
    a.write(0x100, b"\x99\x98")
    a.insert_section(b"new", 0x300)
    a.meta["k"] = 1
    check_eq(snap(b), keep, "second image loaded from one document")
    check("k" not in b.meta, "meta data shared between loaded images")
    return hash(d1)
