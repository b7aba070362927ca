"""Independent encoders and strict decoders for the record formats, written from the format descriptions.

decode(bytes) -> list of (address, data) in file order; raises `Malformed` for anything the format does not allow.
encode(records, style) -> bytes; style: dict(eol, lower, ...).
Nothing in here uses objutils.
"""

import hashlib
import xml.etree.ElementTree as ET


class Malformed(Exception):
    pass


def need(cond, msg, *args):
    if not cond:
        raise Malformed(msg % args if args else msg)


def _hex(text, n=None):
    need(text != "" or n == 0, "empty hex field")
    need(all(c in "0123456789abcdefABCDEF" for c in text), "bad hex %r", text)
    if n is not None:
        need(len(text) == n, "hex field %r is not %d digits", text, n)
    return int(text, 16) if text else 0


def _data(text):
    need(len(text) % 2 == 0, "odd number of digits in %r", text)
    need(all(c in "0123456789abcdefABCDEF" for c in text), "bad hex %r", text)
    return bytes.fromhex(text)


def _lines(raw):
    text = raw.decode("ascii")
    return [ln for ln in text.split("\n") if ln.strip("\r\0 ") != ""]


def _fin(lines, style):
    eol = style.get("eol", "\n")
    text = eol.join(lines) + (eol if style.get("last_eol", True) else "")
    if style.get("lower"):
        text = text.lower()
    return text.encode("ascii")


# --- Intel HEX ------------------------------------------------------------------------------------------


def _ihex_rec(typ, addr, data):
    body = bytes([len(data), addr >> 8 & 255, addr & 255, typ]) + bytes(data)
    return ":" + body.hex().upper() + f"{-sum(body) & 255:02X}"


def ihex_decode(raw):
    out, base, eof = [], 0, False
    for ln in _lines(raw):
        need(not eof, "record after EOF")
        need(ln[0] == ":", "start code")
        body = _data(ln[1:].rstrip("\r"))
        need(len(body) >= 5, "short record")
        need(sum(body) & 255 == 0, "checksum of %r", ln)
        n, addr, typ, data = body[0], body[1] << 8 | body[2], body[3], body[4:-1]
        need(n == len(data), "byte count of %r", ln)
        if typ == 0:
            need(addr + n <= 0x10000, "record crosses a 64K boundary: %r", ln)
            need(n > 0, "empty data record")
            out.append((base + addr, data))
        elif typ == 1:
            need(n == 0, "EOF with data")
            eof = True
        elif typ == 2:
            need(n == 2 and addr == 0, "bad segment record")
            base = int.from_bytes(data, "big") << 4
        elif typ == 4:
            need(n == 2 and addr == 0, "bad linear record")
            base = int.from_bytes(data, "big") << 16
        else:
            need(typ in (3, 5) and n == 4, "unknown type")
    need(eof, "EOF record missing")
    return out


def ihex_encode(records, style):
    """style['ext']: 'linear' | 'segment'; 'always': extended record in front of each record;
    'eof': bool; 'start': emit a start address record."""
    lines, cur = [], 0
    ext = style.get("ext", "linear")
    if style.get("start") == 3:
        lines.append(_ihex_rec(3, 0, bytes([0x12, 0x34, 0x56, 0x78])))
    for addr, data in records:
        if ext == "linear":
            seg = addr >> 16
            base = seg << 16
            rec = _ihex_rec(4, 0, seg.to_bytes(2, "big"))
        else:  # a paragraph, deliberately not always a multiple of 64K
            seg = (addr >> 4) & ~style.get("segmask", 0xFFF)
            seg = min(seg, 0xFFFF)
            base = seg << 4
            rec = _ihex_rec(2, 0, seg.to_bytes(2, "big"))
        need(addr - base + len(data) <= 0x10000, "reference encoder: record crosses segment")
        if base != cur or style.get("always"):
            lines.append(rec)
            cur = base
        if style.get("empty"):  # records without data are allowed, they denote nothing
            lines.append(_ihex_rec(0, addr - base, b""))
        lines.append(_ihex_rec(0, addr - base, data))
        if style.get("empty"):
            lines.append(_ihex_rec(0, 0x100, b""))
    if style.get("start") == 5:
        lines.append(_ihex_rec(5, 0, bytes([0, 1, 0x80, 0])))
    if style.get("eof", True):
        lines.append(_ihex_rec(1, 0, b""))
    return _fin(lines, style)


# --- S-Records ------------------------------------------------------------------------------------------

SREC_ADDR = {0: 2, 1: 2, 2: 3, 3: 4, 7: 4, 8: 3, 9: 2}


def srec_record(typ, addr, data=b"", width=None):
    w = width or SREC_ADDR[typ]
    body = bytes([w + len(data) + 1]) + addr.to_bytes(w, "big") + bytes(data)
    return f"S{typ}" + body.hex().upper() + f"{~sum(body) & 255:02X}"


def srec_parse(raw):
    """List of (type, address, data)."""
    out = []
    for ln in _lines(raw):
        ln = ln.rstrip("\r")
        need(ln[0] == "S" and ln[1:2].isdigit(), "start code of %r", ln)
        typ = int(ln[1])
        body = _data(ln[2:])
        need(len(body) >= 3, "short record %r", ln)
        need(sum(body) & 255 == 255, "checksum of %r", ln)
        need(body[0] == len(body) - 1, "byte count of %r", ln)
        if typ in (5, 6):
            w = len(body) - 2
            need(w in (2, 3, 4), "record count width")
        else:
            need(typ in SREC_ADDR, "record type %d", typ)
            w = SREC_ADDR[typ]
        need(len(body) >= w + 2, "short record %r", ln)
        addr, data = int.from_bytes(body[1 : 1 + w], "big"), body[1 + w : -1]
        if typ not in (0, 1, 2, 3):
            need(not data, "unexpected data in %r", ln)
        out.append((typ, addr, data))
    return out


def srec_decode(raw):
    recs = srec_parse(raw)
    types = {t for t, _, _ in recs if t in (1, 2, 3)}
    need(len(types) <= 1, "mixed record types written")
    for t, a, d in recs:
        if t in (1, 2, 3):
            need(d, "empty data record")
            need(a + len(d) <= 1 << 8 * SREC_ADDR[t], "record leaves the address space")
    return [(a, d) for t, a, d in recs if t in (1, 2, 3)]


def srec_encode(records, style):
    lines = []
    if style.get("header"):
        lines.append(srec_record(0, 0, b"HDR" if style["header"] == 1 else b""))
    top = max((a + len(d) - 1 for a, d in records), default=0)
    typ = style.get("type") or (1 if top < 1 << 16 else 2 if top < 1 << 24 else 3)
    n = 0
    for i, (addr, data) in enumerate(records):
        t = typ
        if style.get("mixed"):  # every record uses the smallest type that fits
            e = addr + len(data) - 1
            t = 1 if e < 1 << 16 else 2 if e < 1 << 24 else 3
        if style.get("empty"):  # records without data are allowed, they denote nothing
            lines.append(srec_record(t, addr, b""))
            lines.append(srec_record(t, 0x77, b""))
            n += 2
        lines.append(srec_record(t, addr, data))
        n += 1
    if style.get("count"):
        lines.append(srec_record(5, n, width=2))
    if style.get("term"):
        lines.append(srec_record({1: 9, 2: 8, 3: 7}[typ], style["term"] - 1))
    if style.get("lower"):  # the S stays upper case
        lines = ["S" + x[1:].lower() for x in lines]
    return _fin(lines, dict(style, lower=False))


# --- TI-TXT ---------------------------------------------------------------------------------------------


def titxt_decode(raw):
    out, addr, end = [], None, False
    for ln in _lines(raw):
        need(not end, "text after q")
        ln = ln.rstrip("\r")
        if ln[0] == "@":
            addr = _hex(ln[1:])
            need(len(ln) - 1 >= 4, "address digits")
        elif ln == "q":
            end = True
        else:
            need(addr is not None, "data without address")
            items = ln.rstrip(" ").split(" ")
            data = bytes(_hex(x, 2) for x in items)
            out.append((addr, data))
            addr += len(data)
    need(end, "q missing")
    return out


def titxt_encode(records, style):
    lines, nxt = [], 0 if style.get("implied") else None
    for addr, data in records:
        if addr != nxt or style.get("always"):
            lines.append(f"@{addr:0{style.get('digits', 4)}X}")
        lines.append(" ".join(f"{b:02X}" for b in data) + style.get("trail", ""))
        nxt = addr + len(data)
    lines.append("q")
    if style.get("lower"):
        lines = [x.lower() for x in lines]
        style = dict(style, lower=False)
    return _fin(lines, style)


# --- ASCII hex space ------------------------------------------------------------------------------------


def ash_decode(raw):
    text = raw.decode("ascii")
    need(text.startswith("\x02"), "STX missing")
    need("\x03" in text, "ETX missing")
    body, tail = text[1:].split("\x03", 1)
    tail = tail.strip()
    need(tail.startswith("$$") and tail[-1] in ",.", "checksum missing")
    want = _hex(tail[2:-1], 4)
    out, addr, total = [], None, 0
    for ln in body.split("\n"):
        ln = ln.strip()
        if not ln:
            continue
        if ln.startswith("$A"):
            need(ln[-1] in ",.", "address terminator")
            addr = _hex(ln[2:].rstrip(",."))
        else:
            need(addr is not None, "data without address")
            data = bytes(_hex(x, 2) for x in ln.split(" "))
            total += sum(data)
            out.append((addr, data))
            addr += len(data)
    need(total & 0xFFFF == want, "ash checksum")
    return out


def ash_encode(records, style):
    sep = style.get("sep", " ")
    hx = str.lower if style.get("lower") else str.upper  # The designator stays as it is.
    lines, nxt, total, first = [], 0 if style.get("implied") else None, 0, True
    if style.get("stx_own_line", True):
        lines.append("\x02 ")
        first = False
    for addr, data in records:
        if addr != nxt or style.get("always"):
            mark = "$A" + hx(f"{addr:0{style.get('digits', 4)}X}") + style.get("mark", ",")
            if first:
                mark = "\x02 " + mark
                first = False
            lines.append(mark)
        lines.append(sep.join(hx(f"{b:02X}") for b in data))
        total += sum(data)
        nxt = addr + len(data)
    lines.append("\x03$$" + hx(f"{total & 0xFFFF:04X}") + ",")
    return _fin(lines, dict(style, lower=False))


# --- EMON52 ---------------------------------------------------------------------------------------------


def emon52_decode(raw):
    out = []
    for ln in _lines(raw):
        ln = ln.rstrip("\r")
        need(len(ln) >= 15 and ln[2] == " " and ln[7] == ":", "layout of %r", ln)
        n, addr = _hex(ln[0:2], 2), _hex(ln[3:7], 4)
        items = ln[8:].split(" ")
        data = bytes(_hex(x, 2) for x in items[:-1])
        need(len(data) == n and n > 0, "byte count of %r", ln)
        need(_hex(items[-1], 4) == sum(data) & 0xFFFF, "checksum of %r", ln)
        out.append((addr, data))
    return out


def emon52_encode(records, style):
    lines = [f"{len(d):02X} {a:04X}:{' '.join(f'{b:02X}' for b in d)} {sum(d) & 0xFFFF:04X}" for a, d in records]
    return _fin(lines, style)


# --- Tektronix ------------------------------------------------------------------------------------------


def _nibbles(data):
    return sum((b >> 4) + (b & 15) for b in data) & 255


def tek_decode(raw):
    out, end = [], False
    for ln in _lines(raw):
        need(not end, "record after termination")
        ln = ln.rstrip("\r")
        need(ln[0] == "/", "start code")
        body = _data(ln[1:])
        need(len(body) >= 4, "short record")
        addr, n = body[0] << 8 | body[1], body[2]
        need(body[3] == _nibbles(body[:3]), "header checksum of %r", ln)
        if n == 0:
            need(len(body) == 4, "termination record")
            need(out and addr == out[-1][0] + len(out[-1][1]) & 0xFFFF, "address of the termination record")
            end = True
        else:
            data = body[4:-1]
            need(len(data) == n, "byte count of %r", ln)
            need(body[-1] == _nibbles(data), "data checksum of %r", ln)
            out.append((addr, data))
    need(end, "termination record missing")
    return out


def tek_encode(records, style):
    lines = []
    for a, d in records:
        head = bytes([a >> 8, a & 255, len(d)])
        lines.append("/" + head.hex().upper() + f"{_nibbles(head):02X}" + bytes(d).hex().upper() + f"{_nibbles(d):02X}")
    if style.get("eof", True):
        e = bytes([0x12, 0x34, 0])
        lines.append("/" + e.hex().upper() + f"{_nibbles(e):02X}")
    return _fin(lines, style)


def etek_decode(raw):
    out = []
    for ln in _lines(raw):
        ln = ln.rstrip("\r")
        need(ln[0] == "%" and ln[3] == "6", "layout of %r", ln)
        n = _hex(ln[1:3], 2)
        need(n == len(ln) - 1, "record length of %r", ln)
        addr, data = _hex(ln[6:11], 5), _data(ln[11:])
        total = sum(int(c, 16) for c in ln[1:3] + ln[3] + ln[6:]) & 255
        need(total == _hex(ln[4:6], 2), "checksum of %r", ln)
        out.append((addr, data))
    return out


def etek_encode(records, style):
    lines = []
    for a, d in records:
        body = f"{a:05X}" + bytes(d).hex().upper()
        ll = f"{len(body) + 5:02X}"
        total = sum(int(c, 16) for c in ll + "6" + body) & 255
        lines.append(f"%{ll}6{total:02X}{body}")
    return _fin(lines, style)


# --- Signetics ------------------------------------------------------------------------------------------


def _rotxor(data):
    c = 0
    for b in data:
        c ^= b
        c = ((c << 1) | (c >> 7)) & 255
    return c


def sig_decode(raw):
    out, end = [], False
    for ln in _lines(raw):
        need(not end, "record after termination")
        ln = ln.rstrip("\r")
        need(ln[0] == ":", "start code")
        body = _data(ln[1:])
        addr, n = body[0] << 8 | body[1], body[2]
        if n == 0:
            need(len(body) == 3, "termination record")
            need(out and addr == out[-1][0] + len(out[-1][1]) & 0xFFFF, "address of the termination record")
            end = True
            continue
        data = body[4:-1]
        need(len(data) == n, "byte count of %r", ln)
        need(body[3] == _rotxor(_minimal(addr) + bytes([n])), "address checksum of %r", ln)
        need(body[-1] == _rotxor(data), "data checksum of %r", ln)
        out.append((addr, data))
    need(end, "termination record missing")
    return out


def _minimal(addr):
    # A leading zero byte leaves the rotating xor at zero, so the minimal form is equivalent to the full one.
    return bytes([addr >> 8, addr & 255])


def sig_encode(records, style):
    lines = []
    for a, d in records:
        head = bytes([a >> 8, a & 255, len(d)])
        lines.append(":" + head.hex().upper() + f"{_rotxor(head):02X}" + bytes(d).hex().upper() + f"{_rotxor(d):02X}")
    if style.get("eof", True):
        lines.append(":123400")
    return _fin(lines, style)


# --- MOS Technology -------------------------------------------------------------------------------------


def mostec_decode(raw):
    out, end = [], False
    for ln in _lines(raw):
        need(not end, "record after termination")
        ln = ln.rstrip("\r")
        need(ln[0] == ";", "start code")
        body = _data(ln[1:])
        if body == b"\0":
            end = True
            continue
        n, addr, data = body[0], body[1] << 8 | body[2], body[3:-2]
        need(n == len(data) and n > 0, "byte count of %r", ln)
        need(sum(body[:-2]) & 0xFFFF == body[-2] << 8 | body[-1], "checksum of %r", ln)
        out.append((addr, data))
    need(end, "termination record missing")
    return out


def mostec_encode(records, style):
    lines = []
    for a, d in records:
        body = bytes([len(d), a >> 8, a & 255]) + bytes(d)
        lines.append(";" + body.hex().upper() + f"{sum(body) & 0xFFFF:04X}")
    if style.get("eof", True):
        lines.append(";00")
    return _fin(lines, style)


# --- RCA, COSMAC ----------------------------------------------------------------------------------------


def rca_decode(raw):
    text = raw.decode("ascii")
    need("!M" in text, "start code")
    out = []
    for ln in text[text.index("!M") + 2 :].split("\n"):
        ln = ln.strip("\r\0 ")
        if not ln:
            continue
        need(ln[-1] == ";" and ln[4] == " ", "layout of %r", ln)
        out.append((_hex(ln[:4], 4), _data(ln[5:-1])))
    return out


def rca_encode(records, style):
    hx = str.lower if style.get("lower") else str.upper
    lines = ["\0" * 8 + "!M"] + [hx(f"{a:04X} {bytes(d).hex()};") for a, d in records]
    if style.get("eof", True):
        lines.append(":0000")
    return _fin(lines, dict(style, lower=False))


def cosmac_decode(raw):
    out = []
    for ln in _lines(raw):
        ln = ln.rstrip("\r")
        need(ln.startswith("!M") and ln[6] == " ", "layout of %r", ln)
        out.append((_hex(ln[2:6], 4), _data(ln[7:])))
    return out


def cosmac_encode(records, style):
    lines, nxt = [], 0 if style.get("implied") else None
    hx = str.lower if style.get("lower") else str.upper
    for i, (a, d) in enumerate(records):
        h = hx(bytes(d).hex())
        if style.get("cont") and a == nxt:
            lines.append(h)
        elif style.get("cont") and i:
            lines.append(hx(f"{a:04X}") + f" {h}")
        else:
            lines.append("!M" + hx(f"{a:04X}") + f" {h}")
        nxt = a + len(d)
    return _fin(lines, dict(style, lower=False))


# --- FPC ------------------------------------------------------------------------------------------------

FPC_ALPHABET = "".join(chr(c) for c in range(37, 123) if c != 42)


def fpc_unpack(line):
    need(line[0] == "$" and (len(line) - 1) % 5 == 0, "layout of %r", line)
    out = bytearray()
    for i in range(1, len(line), 5):
        v = 0
        for c in line[i : i + 5]:
            need(c in FPC_ALPHABET, "character %r", c)
            v = v * 85 + FPC_ALPHABET.index(c)
        need(v < 1 << 32, "quintuple overflow")
        out += v.to_bytes(4, "big")
    return bytes(out)


def fpc_pack(body):
    out = "$"
    for i in range(0, len(body), 4):
        v = int.from_bytes(body[i : i + 4], "big")
        g = ""
        for _ in range(5):
            g = FPC_ALPHABET[v % 85] + g
            v //= 85
        out += g
    return out


def fpc_decode(raw):
    out, end, nxt = [], False, 0
    for ln in _lines(raw):
        need(not end, "record after termination")
        body = fpc_unpack(ln.rstrip("\r"))
        if body == bytes(4):
            end = True
            continue
        need(len(body) >= 8, "short record")
        chk, n, fmt = body[0], body[1], body[2] << 8 | body[3]
        need(fmt in (0, 1), "format type %d", fmt)
        if fmt == 0:
            addr, data = int.from_bytes(body[4:8], "big"), body[8:]
            cov = body[4:8]
        else:
            addr, data = nxt, body[4:]
            cov = addr.to_bytes(4, "big")
        need(n >= 4 and len(data) >= n - 4, "byte count")
        data = data[: n - 4]
        need(chk == -(fmt + n + sum(cov) + sum(data)) & 255, "checksum")
        out.append((addr, data))
        nxt = addr + len(data)
    need(end, "termination record missing")
    return out


def fpc_body(addr, data, fmt=0):
    n = len(data) + 4
    chk = -(fmt + n + sum(addr.to_bytes(4, "big")) + sum(data)) & 255
    body = bytes([chk, n, 0, fmt]) + (addr.to_bytes(4, "big") if fmt == 0 else b"") + bytes(data)
    return body + bytes(-len(body) % 4)


def fpc_encode(records, style):
    lines, nxt = [], 0 if style.get("implied") else None
    for a, d in records:
        fmt = 1 if style.get("inc") and a == nxt else 0
        lines.append(fpc_pack(fpc_body(a, d, fmt)))
        nxt = a + len(d)
    lines.append(fpc_pack(bytes(4)))
    return _fin(lines, dict(style, lower=False))


# --- SHF ------------------------------------------------------------------------------------------------


def shf_decode(raw):
    root = ET.fromstring(raw)
    need(root.tag == "dump" and "name" in root.attrib, "root element")
    out = []
    if "blocks" in root.attrib:
        need(_hex(root.attrib["blocks"]) == len(root), "number of blocks")
    for b in root:
        need(b.tag == "block" and set(b.attrib) == {"name", "address", "word_size", "length", "checksum"}, "block")
        data = _data("".join((b.text or "").split()))
        need(_hex(b.attrib["word_size"]) * _hex(b.attrib["length"]) == len(data), "block length")
        need(hashlib.sha1(data).hexdigest() == b.attrib["checksum"].lower(), "block checksum")
        out.append((_hex(b.attrib["address"]), data))
    return out


def shf_sum(d, style):
    digest = hashlib.sha1(bytes(d)).hexdigest()
    if style.get("sums") == "upper":
        return digest.upper()
    if style.get("sums") == "spaced":
        return " ".join(digest[i : i + 4] for i in range(0, 40, 4))
    return digest


def shf_encode(records, style):
    eol = style.get("eol", "\n")
    up = (lambda s: s) if style.get("lower") else str.upper
    lines = ['<?xml version="1.0" encoding="UTF-8"?>', f'<dump name="x" blocks="{len(records):04x}">']
    w = style.get("word_size", 1)
    if style.get("empty"):  # A block without data between the others.
        records = [*records[:1], (0x40, b""), *records[1:]]
        lines[1] = f'<dump name="x" blocks="{len(records):04x}">'
    for i, (a, d) in enumerate(records):
        ws = w if len(d) % w == 0 else 1
        text = " ".join(up(f"{b:02x}") for b in d)
        if style.get("wrap"):
            text = eol.join(text[k : k + 30] for k in range(0, len(text), 30))
        lines.append(
            f'<block name="b{i}" address="{up(f"{a:08x}")}" word_size="{ws:02x}" length="{up(f"{len(d) // ws:08x}")}" '
            f'checksum="{shf_sum(d, style)}">' + ("</block>" if style.get("empty") == 1 and not d else f"{eol}{text}{eol}</block>")
        )
    lines.append("</dump>")
    return eol.join(lines).encode("ascii")


class Codec:
    def __init__(self, name, top, max_row, decode, encode, checksummed, rows=True):
        self.name, self.top, self.max_row = name, top, max_row
        self.decode, self.encode, self.checksummed, self.rows = decode, encode, checksummed, rows


CODECS = {
    c.name: c
    for c in (
        Codec("ihex", 1 << 32, 255, ihex_decode, ihex_encode, True),
        Codec("srec", 1 << 32, 250, srec_decode, srec_encode, True),
        Codec("titxt", 1 << 16, None, titxt_decode, titxt_encode, False),
        Codec("ash", 1 << 16, None, ash_decode, ash_encode, False),
        Codec("emon52", 1 << 16, 255, emon52_decode, emon52_encode, True),
        Codec("tek", 1 << 16, 255, tek_decode, tek_encode, True),
        Codec("etek", 1 << 20, 122, etek_decode, etek_encode, True),
        Codec("sig", 1 << 16, 255, sig_decode, sig_encode, True),
        Codec("mostec", 1 << 16, 255, mostec_decode, mostec_encode, True),
        Codec("rca", 1 << 16, None, rca_decode, rca_encode, False),
        Codec("cosmac", 1 << 16, None, cosmac_decode, cosmac_encode, False),
        Codec("fpc", 1 << 16, 251, fpc_decode, fpc_encode, True),
        Codec("shf", None, None, shf_decode, shf_encode, True, rows=False),
    )
}
