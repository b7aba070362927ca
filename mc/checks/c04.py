"""C04: a damaged record of a checksummed format never loads as different content."""

from mc.core import STATS, HarnessError, check, pattern
from mc import core
from mc.refcodec import CODECS, FPC_ALPHABET, Malformed, fpc_body, fpc_pack, srec_record
from mc.refmem import cells_of, normalize, snap

ID = "C04"
LEVEL = "fault_enumeration"
RULE = (
    "Fault enumeration: every document of a set covering record sizes, addresses and data values, every digit position of "
    "the fields protected by byte count and checksum, every other hexadecimal digit; plus every wrong checksum value and "
    "every single data byte deleted or duplicated. The faulty document must be refused or load as the original; a record with a "
    "wrong checksum must be refused."
)
ASSUMPTIONS = [
    "faults are confined to length, address, data and checksum fields covered by the format's checksum (EMON52 and SHF do not cover addresses, FPC padding hides the length)",
    "a fault which makes a line unrecognisable (start code, record type of S-Records and extended Tektronix) is outside: the readers skip foreign lines by design",
    "FPC: byte counts which select a part of the padded record are well-formed; other damage counts as detectable if a strict independent decoder detects it",
]

HEX = "0123456789ABCDEF"
DOCS = [
    [[0x0000, 1, 0]],
    [[0x0012, 2, 1]],
    [[0x1000, 3, 2], [0x1010, 4, 3]],
    [[0x00F0, 16, 4], [0x2000, 16, 5], [0xFFF0, 16, 6]],
    [[0xABCD, 5, 7], [0x0100, 32, 8]],
    [[0x8000, 64, 9]],
    [[0x0F00, 113, 10]],
    [[0x4000, "FF" * 20, 0], [0x5000, "00" * 20, 0]],
    [[0x4000, "0A0D203A", 0], [0x1234, "80", 0], [0x0001, "01", 0]],
    [[0x0202, "7FFF8000", 0], [0x0200, "0101", 0]],
]
WIDE = [
    [[0x12345, 4, 0], [0x0FFF0, 16, 1], [0x54321, 7, 2]],
    [[0x10000, 1, 0], [0xFFFFF, 1, 1]],
]
WIDER = [
    [[0x123456, 4, 0], [0x9ABCDE0, 16, 1]],
    [[0xFFFFFFF0, 16, 0], [0x80000000, 3, 2]],
    [[0x00FF00FF, 8, 0]],
]

NAMES = [n for n, c in CODECS.items() if c.checksummed]


def docs(name, tier):
    out = list(DOCS)
    if CODECS[name].top is None or CODECS[name].top > 1 << 16:
        out += WIDE
    if CODECS[name].top is None or CODECS[name].top > 1 << 20:
        out += WIDER
    extra = range(1, 18) if tier == "quick" else range(1, 113)
    for n in extra:
        out.append([[0x3000 + 37 * n, n, n]])
    return out


def spaces(tier):
    def gen(kind):
        for name in NAMES:
            styles = [{}]
            if name == "ihex":
                styles += [{"ext": "segment"}, {"start": 5}]
            if name == "srec":
                styles += [{"type": 2}, {"type": 3}, {"header": 1, "count": 1, "term": 0x1235}]
            for st in styles:
                for d in docs(name, tier):
                    if st.get("ext") == "segment" and max(a for a, _, _ in d) >= 0x100000:
                        continue
                    if st.get("type") == 2 and max(a for a, _, _ in d) >= 0x1000000:
                        continue
                    for line in range(2 * len(d) + 3):
                        yield [name, st, d, line]

    def late(kind):
        """Faults in a document of many records."""
        for name in NAMES:
            for st in [{}] + ([{"type": 3, "header": 1, "count": 1, "term": 0x1235}] if name == "srec" else []):
                for n in (2,) if tier == "quick" else (1, 2, 5):
                    for line in (100, 128, 255, 256, 257, 259) if tier == "thorough" else (128, 256, 259):
                        yield [name, st, [260, n], line]

    def count():
        """Byte counts which contradict the data, with a checksum computed for the contradicting record."""
        for name in NAMES:
            if name == "shf":
                continue
            for n in (1, 2, 3, 4, 5, 16, 32, 64, 100, 113) if tier == "quick" else range(1, 114):
                for a in (0, 0x1234, 0xFF00):
                    for typ in (1, 2, 3, 0) if name == "srec" else (0,):
                        for where in (0, 1, 2):
                            yield [name, n, a, typ, where]

    out = {k: (lambda k=k: gen(k)) for k in ("digit", "checksum", "bytes")}
    out["count"] = count

    def chars():
        """FPC packs four bytes in five characters: damaged characters, and lost or repeated ones."""
        for n in (1, 2, 3, 4, 5, 7, 8, 9, 16) if tier == "quick" else range(1, 40):
            for s in ("pattern", "00", "FF", "last"):
                for pad in (0, 16):
                    for inc in (0, 1):
                        for mode in ("subst", "del", "dup", "del5", "dup5", "swap5"):
                            yield ["fpc", n, s, pad, inc, mode]

    out["chars"] = chars
    out.update({"late_" + k: (lambda k=k: late(k)) for k in ("digit", "checksum", "bytes")})
    return out


def records(spec):
    if isinstance(spec[0], int):
        return [(0x100 + i * (spec[1] + 2) - (i & 1), pattern(spec[1], i)) for i in range(spec[0])]
    return [(a, bytes.fromhex(n) if isinstance(n, str) else pattern(n, s)) for a, n, s in spec]


def fields(name, line):
    """(covered digit positions, data slice, checksum slice) of a line, None if it carries no protected fields."""
    n = len(line)
    if name == "ihex":
        return list(range(1, n)), (9, n - 2), (n - 2, n)
    if name == "srec":
        w = {"0": 4, "1": 4, "2": 6, "3": 8, "5": n - 6, "7": 8, "8": 6, "9": 4}[line[1]]
        return list(range(2, n)), (4 + w, n - 2), (n - 2, n)
    if name == "emon52":
        return [0, 1] + [i for i in range(8, n) if line[i] != " "], None, (n - 4, n)
    if name == "etek":
        return [1, 2] + list(range(4, n)), (11, n), (4, 6)
    if name == "mostec":
        return list(range(1, n)), (7, n - 4), (n - 4, n)
    if name in ("sig", "tek"):
        return list(range(1, n)), (9, n - 2), (n - 2, n)
    raise HarnessError(name)


def faulty(kind, name, line):
    """All faulty versions of a line."""
    cov, data, chk = fields(name, line)
    if kind == "digit":
        for i in cov:
            for c in HEX:
                if c != line[i].upper():
                    yield line[:i] + c + line[i + 1 :]
    elif kind == "checksum":
        a, b = chk
        if b <= a or a < 1:
            return
        w = b - a
        old = int(line[a:b], 16)
        for v in range(256) if w == 2 else sorted({*range(0, 1 << 16, 257), *range(256), *(old ^ 1 << k for k in range(16)), 0xFFFF - old}):
            if v != old:
                yield f"{line[:a]}{v:0{w}X}{line[b:]}"
    elif kind == "bytes" and data and data[1] - data[0] >= 2:
        a, b = data
        for i in range(a, b, 2):
            yield line[:i] + line[i + 2 :]
            yield line[:i] + line[i : i + 2] + line[i:]
            yield line[:i] + "00" + line[i:]


def with_count(name, a, data, n, typ):
    """A data record with byte count `n`, all checksums fit."""
    data = bytes(data)
    if name == "ihex":
        body = bytes([n, a >> 8, a & 255, 0]) + data
        return ":" + body.hex().upper() + f"{-sum(body) & 255:02X}"
    if name == "srec":
        w = {0: 2, 1: 2, 2: 3, 3: 4}[typ]
        body = bytes([n + w + 1 & 255]) + a.to_bytes(w, "big") + data
        return f"S{typ}" + body.hex().upper() + f"{~sum(body) & 255:02X}"
    if name == "emon52":
        return f"{n:02X} {a:04X}:{' '.join(f'{b:02X}' for b in data)} {sum(data) & 0xFFFF:04X}"
    if name == "tek":
        head = bytes([a >> 8, a & 255, n])
        nib = lambda x: sum((b >> 4) + (b & 15) for b in x) & 255
        return "/" + head.hex().upper() + f"{nib(head):02X}" + data.hex().upper() + f"{nib(data):02X}"
    if name == "etek":
        body = f"{a:05X}" + data.hex().upper()
        ll = f"{2 * n + 10 & 255:02X}"
        total = sum(int(c, 16) for c in ll + "6" + body) & 255
        return f"%{ll}6{total:02X}{body}"
    if name == "sig":

        def rot(x):
            c = 0
            for b in x:
                c ^= b
                c = ((c << 1) | (c >> 7)) & 255
            return c

        head = bytes([a >> 8, a & 255, n])
        return ":" + head.hex().upper() + f"{rot(head):02X}" + data.hex().upper() + f"{rot(data):02X}"
    if name == "mostec":
        body = bytes([n, a >> 8, a & 255]) + data
        return ";" + body.hex().upper() + f"{sum(body) & 0xFFFF:04X}"
    if name == "fpc":
        m = n + 4 & 255
        cov = (a.to_bytes(4, "big") + data)[:m] if m < len(data) + 4 else a.to_bytes(4, "big") + data
        body = bytes([-(m + sum(cov)) & 255, m, 0, 0]) + a.to_bytes(4, "big") + data
        return fpc_pack(body + bytes(-len(body) % 4))
    raise HarnessError(name)


def count_case(p):
    import objutils

    name, n, a, typ, where = p
    good = [(0x2000, pattern(7, 1)), (0x3000, pattern(9, 2))]
    lines = CODECS[name].encode(good, {}).decode().splitlines()
    data = pattern(n, n)
    out = set()
    for v in range(256):
        if v == n:
            continue
        if name == "etek" and (2 * v + 10 & 255) == 2 * n + 10:
            continue
        if name == "fpc" and 4 <= (v + 4 & 255) <= n + 4 + -n % 4:
            continue  # indistinguishable from padding
        bad = with_count(name, a, data, v, typ)
        doc = lines[:where] + [bad] + lines[where:]
        STATS.fault_points += 1
        try:
            img = objutils.loads(name, "\n".join(doc).encode())
        except core.CaseTimeout:
            raise
        except Exception as e:
            out.add(type(e).__name__)
            continue
        check(False, "%s: %r with %d bytes of data accepted: %r", name, bad, n, snap(img))
    return sorted(out)


def chars_case(p):
    """Whatever an independent strict decoder refuses must be refused (or load as the original)."""
    import objutils

    _, n, s, pad, inc, mode = p
    data = {"pattern": pattern(n, n), "00": bytes(n), "FF": b"\xff" * n, "last": bytes(n - 1) + b"\x80"}[s]
    recs = [(0x2000, pattern(7, 1)), (0x2007 if inc else 0x3000, data), (0x4000, pattern(9, 2))]
    lines = []
    for i, (a, d) in enumerate(recs):
        body = fpc_body(a, d, inc if i == 1 else 0)
        lines.append(fpc_pack(body + bytes(max(0, pad - len(d) - -len(d) % 4))))
    lines.append(fpc_pack(bytes(4)))
    want = normalize(cells_of(recs))
    check(snap(objutils.loads("fpc", "\n".join(lines).encode())) == want, "the undamaged document")
    ln = lines[1]
    bad = set()
    if mode == "subst":
        for i in range(1, len(ln)):
            bad |= {ln[:i] + c + ln[i + 1 :] for c in FPC_ALPHABET if c != ln[i]}
    else:
        w = 5 if mode.endswith("5") else 1
        for i in range(1, len(ln), w):
            if mode.startswith("del"):
                bad.add(ln[:i] + ln[i + w :])
            elif mode.startswith("dup"):
                bad.add(ln[:i] + ln[i : i + w] + ln[i:])
            else:
                bad.add(ln[:i] + ln[i + w : i + 2 * w] + ln[i : i + w] + ln[i + 2 * w :])
    out = set()
    for b in sorted(bad - {ln, fpc_pack(bytes(4))}):  # the latter is a termination record
        STATS.fault_points += 1
        doc = "\n".join([lines[0], b, *lines[2:]]).encode()
        try:
            ref = normalize(cells_of(CODECS["fpc"].decode(doc)))
        except (Malformed, ValueError):
            ref = want
        try:
            got = snap(objutils.loads("fpc", doc))
        except core.CaseTimeout:
            raise
        except Exception as e:
            out.add(type(e).__name__)
            continue
        check(got == ref, "fpc: %r damaged to %r loaded as %r", ln, b, got)
        out.add("undetectable" if ref != want else "same")
    return sorted(out)


def must_not_differ(name, doc, want, what, refuse=False):
    import objutils

    STATS.fault_points += 1
    try:
        img = objutils.loads(name, doc)
    except core.CaseTimeout:
        raise
    except Exception as e:
        return type(e).__name__
    got = snap(img)
    check(not refuse, "%s: %s accepted", name, what)
    check(got == want, "%s: %s loaded as %r", name, what, got)
    return "same"


def run_case(kind, p):
    if kind == "count":
        return count_case(p)
    if kind == "chars":
        return chars_case(p)
    name, style, spec, lineno = p
    kind = kind.replace("late_", "")
    recs = records(spec)
    want = normalize(cells_of(recs))
    import objutils

    check(snap(objutils.loads(name, CODECS[name].encode(recs, style))) == want, "%s: the undamaged document", name)
    if name == "shf":
        return shf_case(kind, recs, lineno)
    if name == "fpc":
        return fpc_case(kind, recs, lineno, want)
    if name == "emon52" and kind == "bytes":
        lines = CODECS[name].encode(recs, style).decode().split("\n")
        if lineno >= len(recs):
            return None
        head, rest = lines[lineno].split(":")
        items = rest.split(" ")
        out = set()
        for i in range(len(items) - 1):
            for new in (items[:i] + items[i + 1 :], items[: i + 1] + items[i:]):
                doc = lines[:lineno] + [head + ":" + " ".join(new if len(new) > 1 else ["", *new])] + lines[lineno + 1 :]
                out.add(must_not_differ(name, "\n".join(doc).encode(), want, f"byte fault in {lines[lineno]!r}"))
        return sorted(out)
    lines = CODECS[name].encode(recs, style).decode().split("\n")
    if lineno >= len(lines) or len(lines[lineno]) < 8:
        return None
    if (name == "tek" and lines[lineno][5:7] == "00") or (name in ("sig", "mostec") and len(lines[lineno]) < 10):
        return None  # termination records
    out = set()
    for bad in faulty(kind, name, lines[lineno]):
        doc = lines[:lineno] + [bad] + lines[lineno + 1 :]
        out.add(must_not_differ(name, "\n".join(doc).encode(), want, f"{lines[lineno]!r} damaged to {bad!r}", kind == "checksum" and len(lines[lineno]) > 11))
    return sorted(out)


def fpc_case(kind, recs, lineno, want):
    if lineno >= len(recs):
        return None
    lines = [fpc_pack(fpc_body(a, d)) for a, d in recs] + [fpc_pack(bytes(4))]
    a, d = recs[lineno]
    body = fpc_body(a, d).hex().upper()
    n = 16 + 2 * len(d)
    variants = []
    if kind == "digit":
        for i in [0, 1, *range(4, n)]:  # a wrong length is indistinguishable from padding
            variants += [body[:i] + c + body[i + 1 :] for c in HEX if c != body[i]]
    elif kind == "checksum":
        variants = [f"{v:02X}" + body[2:] for v in range(256) if f"{v:02X}" != body[:2]]
    else:
        return None
    out = set()
    for v in variants:
        doc = lines[:lineno] + [fpc_pack(bytes.fromhex(v))] + lines[lineno + 1 :]
        out.add(must_not_differ("fpc", "\n".join(doc).encode(), want, f"record {body} damaged to {v}", kind == "checksum"))
    return sorted(out)


def shf_case(kind, recs, lineno):
    """A damaged block may be dropped, the remaining blocks have to be loaded unchanged."""
    import objutils

    if lineno >= len(recs):
        return None
    doc = CODECS["shf"].encode(recs, {"lower": 1}).decode()
    blocks = doc.split("<block ")
    b = blocks[lineno + 1]
    gt = b.index(">") + 1
    end = b.index("</block>")
    cells = cells_of(recs)
    a, d = recs[lineno]
    rest = {k: v for k, v in cells.items() if not a <= k < a + len(d)}
    allowed = (normalize(cells), normalize(rest))
    variants = []
    if kind == "digit":
        spots = [i for i in range(gt, end) if b[i] not in " \n"]
        for attr in ("length", "checksum", "word_size"):
            s = b.index(attr + '="') + len(attr) + 2
            spots += range(s, b.index('"', s))
        for i in spots:
            variants += [b[:i] + c + b[i + 1 :] for c in "0123456789abcdef" if c != b[i]]
    elif kind == "bytes":
        items = b[gt:end].split()
        for i in range(len(items)):
            for new in (items[:i] + items[i + 1 :], items[: i + 1] + items[i:]):
                variants.append(b[:gt] + " ".join(new) + b[end:])
            if i and items[i] != items[i - 1]:
                new = list(items)
                new[i], new[i - 1] = new[i - 1], new[i]
                variants.append(b[:gt] + " ".join(new) + b[end:])
    out = set()
    for v in variants:
        STATS.fault_points += 1
        bad = "<block ".join(blocks[: lineno + 1] + [v] + blocks[lineno + 2 :])
        try:
            img = objutils.loads("shf", bad.encode())
        except Exception as e:
            out.add(type(e).__name__)
            continue
        got = snap(img)
        check(got in allowed, "shf: block damaged to %r loaded as %r", v, got)
        out.add("whole" if got == allowed[0] else "dropped")
    return sorted(out)
