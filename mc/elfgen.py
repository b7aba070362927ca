"""Independent ELF writer (from the gABI, not from objutils).

build(cls, endian, sections, segments=(), machine=.., ...) -> bytes
sections: list of dicts name,type,flags,addr,data|None,size,link,info,align,entsize
A NULL section is put in front and `.shstrtab` is appended.
"""
import struct


def strtab(names, share=False):
    """`share`: a name which is the suffix of another one is not stored on its own (as linkers do)."""
    blob = b"\0"
    offs = {"": 0}
    for n in sorted(names, key=len, reverse=True) if share else names:
        if share and n not in offs:
            at = blob.find(n.encode("utf8") + b"\0")
            if at >= 0:
                offs[n] = at
        if n not in offs:
            offs[n] = len(blob)
            blob += n.encode("utf8") + b"\0"
    return blob, offs


def symtab(cls, endian, symbols, offs):
    """symbols: dicts name,value,size,bind,type,other,shndx"""
    e = "<" if endian == 1 else ">"
    out = b""
    for s in symbols:
        info = (s["bind"] << 4) | s["type"]
        nm = offs[s["name"]]
        if cls == 1:
            out += struct.pack(e + "IIIBBH", nm, s["value"], s["size"], info, s["other"], s["shndx"])
        else:
            out += struct.pack(e + "IBBHQQ", nm, info, s["other"], s["shndx"], s["value"], s["size"])
    return out


def build(cls, endian, sections, segments=(), etype=2, machine=40, version=1, entry=0, flags=0,
          osabi=0, abiversion=0, shstr_first=False, sht_before=False, pad=0, share=False):
    e = "<" if endian == 1 else ">"
    null = dict(name="", type=0, flags=0, addr=0, data=None, size=0, link=0, info=0, align=0, entsize=0)
    shstr = dict(name=".shstrtab", type=3, flags=0, addr=0, data=b"", size=0, link=0, info=0, align=1, entsize=0)
    secs = [dict(null)] + ([shstr] if shstr_first else []) + [dict(s) for s in sections] + ([] if shstr_first else [shstr])
    blob, offs = strtab([s["name"] for s in secs], share)
    shstr["data"] = blob
    for s in secs:
        for k, v in null.items():
            s.setdefault(k, v)
    ehsize = 52 if cls == 1 else 64
    phent = 32 if cls == 1 else 56
    shent = 40 if cls == 1 else 64
    pos = ehsize
    phoff = pos if segments else 0
    pos += phent * len(segments)
    shoff = 0
    if sht_before:
        shoff = pos
        pos += shent * len(secs)
    body = b""
    base = pos
    for s in secs:
        if s["data"] is not None:
            body += b"\xa5" * pad
            s["offset"] = base + len(body)
            s["size"] = len(s["data"])
            body += s["data"]
        else:
            s["offset"] = base + len(body)
    if not sht_before:
        shoff = base + len(body)
    ident = b"\x7fELF" + bytes([cls, endian, version, osabi, abiversion]) + bytes(7)
    a = "I" if cls == 1 else "Q"
    hdr = ident + struct.pack(e + "HHI" + a * 3 + "IHHHHHH", etype, machine, version, entry, phoff, shoff, flags,
                              ehsize, phent if segments else 0, len(segments), shent, len(secs), secs.index(shstr))
    ph = b""
    for g in segments:
        if cls == 1:
            ph += struct.pack(e + "8I", g["type"], g["offset"], g["vaddr"], g["paddr"], g["filesz"], g["memsz"], g["flags"], g["align"])
        else:
            ph += struct.pack(e + "IIQQQQQQ", g["type"], g["flags"], g["offset"], g["vaddr"], g["paddr"], g["filesz"], g["memsz"], g["align"])
    sh = b""
    for s in secs:
        vals = (offs[s["name"]], s["type"], s["flags"], s["addr"], s["offset"], s["size"], s["link"], s["info"], s["align"], s["entsize"])
        sh += struct.pack(e + ("10I" if cls == 1 else "IIQQQQIIQQ"), *vals)
        s["sh_name"] = offs[s["name"]]
    out = hdr + ph + (sh if sht_before else b"") + body + (b"" if sht_before else sh)
    meta = dict(ehsize=ehsize, phentsize=phent if segments else 0, shentsize=shent, phoff=phoff, shoff=shoff,
                shnum=len(secs), shstrndx=secs.index(shstr), sections=secs, etype=etype, machine=machine, version=version,
                entry=entry, flags=flags, osabi=osabi, abiversion=abiversion, cls=cls, data=endian, segments=list(segments))
    return out, meta
