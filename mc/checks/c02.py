"""C02: what the writers emit is a well-formed document of the format which denotes exactly the image."""

from mc import images
from mc.checks.c01 import sections_of, spaces  # noqa: F401
from mc.core import check, check_eq
from mc.refcodec import CODECS, Malformed
from mc.refmem import cells_of

ID = "C02"
LEVEL = "exploration"
RULE = (
    "Exhaustive enumeration of images per codec (as C01); the written document is parsed by an independent strict decoder "
    "of the format which checks framing, byte counts, checksums, record sizes and termination."
)
ASSUMPTIONS = [
    "the strict decoders in mc/refcodec.py state the formats (extended Tektronix: the five digit address dialect of the library)",
]



def run_case(kind, p):
    import objutils

    name = p[0]
    r, secs, join = sections_of(kind, p)
    codec = CODECS[name]
    if len(secs) > 40 or not join:
        img = objutils.Image([objutils.Section(a, d) for a, d in secs], join=join)
    else:
        img = images.make_image(secs)
    data = bytes(objutils.dumps(name, img, row_length=r) if codec.rows else objutils.dumps(name, img))
    try:
        records = codec.decode(data)
    except (Malformed, ValueError, IndexError) as e:
        check(False, "%s document is malformed: %s: %r", name, e, data[:300])
    covered = 0
    cells = {}
    for a, d in records:
        covered += len(d)
        for i, b in enumerate(d):
            cells[a + i] = b
        if codec.rows:
            check(len(d) <= r, "%s record of %d bytes for a row length of %d", name, len(d), r)
    check_eq(covered, sum(len(d) for _, d in secs), "number of bytes in the document (some twice or missing)")
    check(cells == cells_of(secs), "%s document denotes other bytes or addresses", name)
    return hash(data)
