"""C10: codec operations do not influence each other, neither in sequence nor concurrently."""

import itertools

from mc import core, images, sched
from mc.core import STATS, check, check_eq, pattern
from mc.refcodec import CODECS
from mc.refmem import snap

ID = "C10"
LEVEL = "model_checking"
RULE = (
    "Histories: every sequence of load/save operations (including failing ones) up to length 3 on one reader, one writer and "
    "the module API, compared with fresh objects. Schedules: all line-level interleavings of two codec operations up to the "
    "preemption bound, results compared with the sequential run."
)
BOUNDS = {"quick": "histories of 3 over 6 operations; preemption bound 1, preemption at the first 2 executions of every source line per thread", "thorough": "histories of 4; preemption bound 1 at every executed line, bound 2 on short documents"}
CASE_TIMEOUT = 600
ASSUMPTIONS = ["one reader or writer object is used by one thread at a time", "writer options given as keyword persist on a reused writer object by design and are tested on the module API only"]

POOL16 = [
    [[0x100, 20, 1]],
    [[0x114, 5, 2]],  # starts where the first one ends
    [[0, 3, 3], [0x40, 16, 4]],
    [[0xFFF8, 8, 5]],
]
WIDE = [[[0x1FFF8, 20, 6]], [[0x10114, 3, 7]]]

OCC = [2]


def setup(tier):
    OCC[0] = 2 if tier == "quick" else None


def pool(name):
    out = list(POOL16)
    if images.top_of(name) > 1 << 20:
        out += [[[0x1FFF8, 20, 6]], [[0x2100114, 3, 7]]]
    elif images.top_of(name) > 1 << 16:
        out += WIDE
    else:
        out += [[[0x0, 1, 6]], [[0x3, 33, 7]]]
    return out


def spaces(tier):
    depth = 3 if tier == "quick" else 4

    def reuse():
        for name in [*CODECS, "bin"]:
            for what in ("reader", "writer", "module"):
                for first in range(7):
                    yield [name, what, first, depth]

    def options():
        kws = [{}, {"record_type": 2}, {"record_type": 3}, {"s5record": True}, {"start_address": 0x100}, {"s5record": True, "record_type": 2}]
        for seq in itertools.product(range(len(kws)), repeat=3):
            yield [kws[i] for i in seq]
        for seq in itertools.product((1, 3, 16, 64), repeat=3):
            yield [{"row_length": r} for r in seq]

    def schedules():
        for name in CODECS:
            for pair in (("save", "save"), ("load", "load"), ("save same", "save same"), ("save", "load")):
                if tier == "thorough" or pair[0] == pair[1]:
                    yield [name, name, *pair, 1]
        names = list(CODECS)
        for a, b in list(zip(names, names[1:] + names[:1]))[:: 1 if tier == "thorough" else 3]:
            yield [a, b, "load", "save", 1]
        if tier == "thorough":
            for name in ("srec", "ihex", "titxt", "ash", "fpc", "cosmac", "sig", "tek", "shf"):
                for pair in (("save tiny", "save tiny"), ("load tiny", "load tiny")):
                    yield [name, name, *pair, 2]

    def logging():
        for name in CODECS:
            for n in (0, 1, 5):
                yield [name, n]

    return {"schedules": schedules, "reuse": reuse, "options": options, "logging": logging}


def run_case(kind, p):
    return {"reuse": reuse, "options": options, "schedules": schedules, "logging": messages}[kind](*p)


def reference(name, i):
    import objutils

    secs = images.build(pool(name)[i])
    return secs, bytes(objutils.dumps(name, images.make_image(secs)))


def reuse(name, what, first, depth):
    import objutils
    from objutils.registry import registry

    docs = []
    for i in range(6):
        if name == "bin":
            secs = ((0x10 * i, pattern(5 + i, i)),)
            docs.append((secs, secs[0][1]))
        elif what == "writer":
            docs.append(reference(name, i))
        else:
            secs = images.build(pool(name)[i])
            recs = [(a + k, d[k : k + 16]) for a, d in secs for k in range(0, len(d), 16)]
            if name == "ihex":
                recs = [x for a, d in recs for x in _split(a, d)]
            style = {"cosmac": {"cont": 1, "implied": 1}, "fpc": {"inc": 1, "implied": 1}, "titxt": {"implied": 1}, "ash": {"implied": 1}}.get(name, {})
            docs.append((secs, CODECS[name].encode(recs, style)))
    bad_doc = {
        "ihex": b":020000041234B4\n:10000000112233445566778899AABBCCDDEEFF00FF\n",
        "srec": b"S1130000FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFD\n",
    }.get(name, docs[0][1][: len(docs[0][1]) // 2] + b"\n\xff")
    n = 0
    for rest in itertools.product(range(7), repeat=depth - 1):
        seq = (first, *rest)
        rd, wr = registry.get(name).Reader(), registry.get(name).Writer()
        for step in seq:
            if what == "writer":
                if step == 6:  # refused
                    try:
                        wr.dumps(objutils.Image([objutils.Section(1 << 40, b"x")]), 16)
                    except Exception:
                        pass
                    continue
                secs, doc = docs[step]
                check_eq(bytes(wr.dumps(images.make_image(secs))), doc, f"{name}: writer reused as {seq}, document {step}")
            else:
                load = rd.loads if what == "reader" else lambda d, *a: objutils.loads(name, d, *a)
                if step == 6:
                    try:
                        load(bad_doc)
                    except Exception:
                        pass
                    continue
                secs, doc = docs[step]
                img = load(doc, secs[0][0]) if name == "bin" else load(doc)
                check_eq(snap(img), secs, f"{name}: {what} used as {seq}, document {step}")
                if name not in ("bin",):
                    img.insert_section(b"zz", 0x8000)  # must not be seen by anybody else
                    img.meta["x"] = 1
            n += 1
            core.visit((name, what, step, snap(img) if what != "writer" else doc))
        STATS.traces += 1
    return n


def _split(a, d):
    room = 0x10000 - a % 0x10000
    return [(a, d)] if len(d) <= room else [(a, d[:room]), (a + room, d[room:])]


def options(*kws):
    import objutils

    img = images.make_image(images.build([[0x100, 20, 1], [0x1000, 3, 2]]))
    # what each call yields when it is the first and only one does not depend on the others: compare with the last position
    alone = {}
    for kw in kws:
        k = repr(sorted(kw.items()))
        doc = bytes(objutils.dumps("srec", img, **kw))
        check_eq(alone.setdefault(k, doc), doc, f"options {kw} after {kws}")
        recs = [ln[:2] for ln in doc.split()]
        check_eq(recs[0], b"S%d" % kw.get("record_type", 1), f"record type of {kw} after {kws}")
        check_eq(b"S5" in recs, "s5record" in kw, f"count record of {kw} after {kws}")
        check_eq(any(r in (b"S7", b"S8", b"S9") for r in recs), "start_address" in kw, f"termination record of {kw} after {kws}")
        rl = kw.get("row_length", 16)
        check_eq(sum(r in (b"S1", b"S2", b"S3") for r in recs), -(-20 // rl) + -(-3 // rl), f"rows of {kw} after {kws}")
    return len(alone)


def schedules(a, b, opa, opb, bound):
    import objutils

    sched.patch_locks()
    shared = images.make_image(images.build([[0x100, 6, 1], [0x180, 3, 2]]))

    def body(name, op, k):
        what, *mod = op.split()
        if mod == ["same"]:
            img = shared
        elif mod == ["tiny"]:
            img = images.make_image(images.build([[0x100 + k, 2, k]]))
        elif images.top_of(name) > 1 << 16:
            img = images.make_image(images.build([[0x1FFFE + 0x30000 * k, 4, k], [0xF0000 - k, 2, k + 2]]))
        else:
            img = images.make_image(images.build([[0x200 + 6 * k, 6, k], [0xF000 - k, 2, k + 2]]))
        if what == "save":
            return lambda: bytes(objutils.dumps(name, img))
        doc = bytes(objutils.dumps(name, img))
        return lambda: snap(objutils.loads(name, doc))

    want = [("ok", body(a, opa, 0)()), ("ok", body(b, opb, 1)())]

    bodies = [body(a, opa, 0), body(b, opb, 1)]

    def make():
        return bodies

    def judge(results):
        check_eq(results, want, f"{opa} {a} || {opb} {b}")

    return sched.explore(make, judge, bound, occurrences=OCC[0])


def messages(name, n):
    """A diagnostic is emitted once, no matter how many codec objects have existed before."""
    import logging

    import objutils

    for _ in range(n):
        objutils.loads(name, CODECS[name].encode([(0x100, b"abc")], {}))
    lg = logging.getLogger("objutils.Reader")
    before = len(lg.handlers)
    for _ in range(3):
        objutils.loads(name, CODECS[name].encode([(0x100, b"abc")], {}))
        objutils.dumps(name, images.make_image(((0x100, b"abc"),)))
    check(len(lg.handlers) <= max(before, 1), "log handlers pile up: %d -> %d", before, len(lg.handlers))
    return n
