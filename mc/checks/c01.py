"""C01: every record-oriented codec reads back exactly what it wrote."""

from mc import images
from mc.core import check, check_eq, pattern
from mc.refcodec import CODECS
from mc.refmem import cells_of, normalize, snap

ID = "C01"
LEVEL = "exploration"
RULE = (
    "Exhaustive enumeration of images (addresses x lengths x row lengths, section layouts with gaps, byte values in every "
    "lane) per codec; each is written and read back with the real codec and compared byte for byte."
)
ASSUMPTIONS = ["addresses, lengths, gaps and row lengths are taken from boundary sets, not all integers"]


def spaces(tier):
    def single():
        for name in CODECS:
            for r, secs in images.singles(name, tier):
                yield [name, r, secs]

    def multi():
        for name in CODECS:
            for r, secs in images.multis(name, tier):
                yield [name, r, secs]

    def values():
        for name in CODECS:
            for r, a, row in images.data_values(name, tier):
                yield [name, r, a, row]

    def crowd():
        for name in CODECS:
            for r, spec in images.crowds(name, tier):
                yield [name, r, spec]

    def bulk():
        for name in CODECS:
            for r, secs in images.bulk(name, tier):
                yield [name, r, secs]

    def adjacent():
        for name in CODECS:
            for r, base, lens in images.adjacent(name, tier):
                yield [name, r, base, lens]

    return {"values": values, "crowd": crowd, "bulk": bulk, "adjacent": adjacent, "multi": multi, "single": single}


def sections_of(kind, p):
    """(row length, sections put into the image, joined?) of a case."""
    if kind == "values":
        return p[1], ((p[2], bytes(p[3])),), True
    if kind == "crowd":
        return p[1], images.crowd(*p[2]), True
    if kind == "adjacent":
        out, a = [], p[2]
        for i, n in enumerate(p[3]):
            out.append((a, pattern(n, i)))
            a += n
        return p[1], tuple(out), False
    return p[1], images.build(p[2]), True


def run_case(kind, p):
    import objutils

    name = p[0]
    r, secs, join = sections_of(kind, p)
    if len(secs) > 40 or not join:
        img = objutils.Image([objutils.Section(a, d) for a, d in secs], join=join)
    else:
        img = images.make_image(secs)
    data = objutils.dumps(name, img, row_length=r) if CODECS[name].rows else objutils.dumps(name, img)
    check(isinstance(data, (bytes, bytearray)), "dumps returns bytes")
    check_eq(snap(img), secs, "encoding changed the image")
    back = objutils.loads(name, data)
    check_eq(snap(back), secs if join else normalize(cells_of(secs)), f"{name} round trip")
    check(back == img or not join, "images differ")
    return hash(secs) ^ hash(data)
