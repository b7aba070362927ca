"""C08: files and in-memory documents are equivalent; failures surface and never damage an existing file."""

import io
import os
import shutil
import tempfile

from mc import images
from mc.core import STATS, Sink, check, check_eq, expect_raises, pattern
from mc.refcodec import CODECS
from mc.refmem import snap

ID = "C08"
LEVEL = "fault_enumeration"
RULE = (
    "Per codec and image: path, binary file object and in-memory variants must agree; then every refusal reason is triggered "
    "on an existing file and every I/O operation of the file object (k-th write, read, close) is made to fail in turn."
)
ASSUMPTIONS = ["a file object performs complete writes or raises"]

SHAPES = [
    [[0x100, 1, 1]],
    [[0x100, 40, 1], [0x200, 7, 2]],
    [[0xFF00, 256, 3]],
    [[0, 5000, 4]],
]


def spaces(tier):
    names = [*CODECS, "bin"]

    def files():
        for n in names:
            for s in SHAPES:
                if n == "bin" and len(s) > 1:
                    continue
                for old in (None, "short", "long"):
                    for r in (16, 7):
                        yield [n, s, old, r]

    def refused():
        for n in names:
            for why in ("address", "row", "row0", "option", "type", "start"):
                for target in ("path", "object"):
                    yield [n, why, target]

    def odd_images():
        """Things which are no image, and images whose k-th use of any kind fails."""
        for n in names:
            for target in ("path", "object"):
                for what in ("none", "object", "int", "list", "bytes", "no data", "no data in the second section"):
                    yield [n, target, what]
                for what in ("attribute", "call"):
                    for k in range(0, 12):
                        yield [n, target, [what, k]]

    def io_faults():
        for n in names:
            for s in SHAPES:
                if n == "bin" and len(s) > 1:
                    continue
                for op in ("write", "read"):
                    for k in range(0, 4):
                        for exc in ("OSError", "ValueError"):
                            yield [n, s, op, k, exc]

    def devices():
        for n in names:
            for what in ("full", "nodir", "isdir", "missing"):
                yield [n, what]

    def readers():
        """Documents served in pieces or as text, with or without a final line end."""
        for n in CODECS:
            for s in SHAPES[:3]:
                for form in ("bytes", "bytearray", "str", "bytesio", "file", "path", "subclass"):
                    yield [n, s, form]

    return {"files": files, "refused": refused, "odd_images": odd_images, "io_faults": io_faults, "devices": devices, "readers": readers}


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="mc-c08-")
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


class FaultyFile(io.BytesIO):
    """Fails at the k-th operation of a kind."""

    def __init__(self, data=b"", op="write", k=0, exc=OSError):
        super().__init__(data)
        self.op, self.k, self.exc, self.n = op, k, exc, 0
        self.fired = False
        self.final = None

    def _tick(self, op):
        STATS.fault_points += 1
        if op == self.op:
            if self.n == self.k:
                self.fired = True
                self.n += 1
                raise self.exc(28, "injected") if self.exc is OSError else self.exc("injected")
            self.n += 1

    def write(self, b):
        self._tick("write")
        return super().write(b)

    def read(self, *a):
        self._tick("read")
        return super().read(*a)

    def readlines(self, *a):
        self._tick("read")
        return super().readlines(*a)

    def readline(self, *a):
        self._tick("read")
        return super().readline(*a)

    def __iter__(self):
        self._tick("read")
        return super().__iter__()

    def close(self):
        if self.final is None:
            self.final = self.getvalue()


class Boom(Exception):
    pass


class Failing:
    """An image which works like the wrapped one until the k-th attribute access (or call of a special method)."""

    def __init__(self, img, what, k):
        d = object.__getattribute__(self, "__dict__")
        d.update(img=img, what=what, k=k, n=0)

    def _tick(self, op):
        d = object.__getattribute__(self, "__dict__")
        if op == d["what"]:
            STATS.fault_points += 1
            d["n"] += 1
            if d["n"] == d["k"] + 1:
                raise Boom(op)
        return d["img"]

    def __getattribute__(self, name):
        if name.startswith("_"):
            return object.__getattribute__(self, name)
        return getattr(self._tick("attribute"), name)

    def __setattr__(self, name, value):
        setattr(self._tick("attribute"), name, value)

    def __iter__(self):
        for x in self._tick("call"):
            self._tick("call")
            yield x

    def __len__(self):
        return len(self._tick("call"))

    def __getitem__(self, i):
        return self._tick("call")[i]

    def __contains__(self, x):
        return x in self._tick("call")


def kwargs(name, r):
    return {"row_length": r} if name in CODECS and CODECS[name].rows else {}


def load(name, what, base):
    import objutils

    return objutils.load(name, what, base) if name == "bin" else objutils.load(name, what)


def run_case(kind, p):
    import objutils

    if kind == "devices":
        name, what = p
        img = images.make_image(((0x100, pattern(300, 1)),))
        with Scratch() as d:
            if what == "full":
                with open("/dev/full", "wb", buffering=0) as f:
                    expect_raises((OSError,), objutils.dump, name, f, img, _what=f"{name}: dump to a full device")
                expect_raises((OSError,), objutils.dump, name, "/dev/full", img, _what=f"{name}: dump to a full device")
            elif what == "nodir":
                expect_raises((OSError,), objutils.dump, name, os.path.join(d, "no", "x"), img, _what=f"{name}: dump into a missing directory")
            elif what == "isdir":
                expect_raises((OSError,), objutils.dump, name, d, img, _what=f"{name}: dump onto a directory")
            else:
                expect_raises((OSError,), objutils.load, name, os.path.join(d, "x"), _what=f"{name}: load of a missing file")
        return what
    if kind == "readers":
        name, shape, form = p
        secs = images.build(shape)
        recs = [(a + k, d[k : k + 16]) for a, d in secs for k in range(0, len(d), 16)]
        doc = CODECS[name].encode(recs, {})
        if form == "subclass":

            class B(bytes):
                pass

            img = objutils.loads(name, B(doc))
        elif form in ("bytes", "bytearray"):
            img = objutils.loads(name, doc if form == "bytes" else bytearray(doc))
        elif form == "str":
            img = objutils.loads(name, doc.decode("ascii"))
        elif form == "bytesio":
            img = objutils.load(name, io.BytesIO(doc))
        else:
            with Scratch() as d:
                path = os.path.join(d, "in")
                with open(path, "wb") as f:
                    f.write(doc)
                img = objutils.load(name, path if form == "path" else open(path, "rb"))
                with open(path, "rb") as f:
                    check_eq(f.read(), doc, "the file after loading")
        check_eq(snap(img), secs, f"{name} from {form}")
        return hash(doc)
    if kind == "odd_images":
        name, target, what = p

        def image():
            good = images.make_image(((0x100, pattern(300, 1)),))
            if isinstance(what, list):
                return Failing(good, *what)
            if isinstance(what, str) and what.startswith("no data"):
                bad = images.make_image(((0x100, b"abc"), (0x200, b"abc")))
                list(bad)["second" in what].data = None
                return bad
            return {"none": None, "object": object(), "int": 17, "list": [None, 1], "bytes": b"abc"}[what]

        old = b"previous contents\n" * 50
        with Scratch() as d:
            path = os.path.join(d, "out")
            with open(path, "wb") as f:
                f.write(old)
            sink = Sink()
            try:
                objutils.dump(name, path if target == "path" else sink, image())
            except Exception as e:
                result, want = type(e).__name__, old if target == "path" else b""
            else:
                try:
                    result, want = "accepted", bytes(objutils.dumps(name, image()))
                except Exception as e:
                    result, want = type(e).__name__, None  # counted differently
            if target == "path":
                with open(path, "rb") as f:
                    got = f.read()
                check_eq(sorted(os.listdir(d)), ["out"], "files left behind")
            else:
                got = sink.getvalue()
            if want is not None:
                check_eq(got, want, f"{name}: {target} after a dump of an odd image ({what}): {result}")
        return result
    if kind == "refused":
        name, why, target = p
        img = images.make_image(((0x100, pattern(300, 1)),))
        kws = {}
        if why == "address":
            img = images.make_image(((0x100, b"abc"), (1 << 33, pattern(3, 1))))
        elif why == "row":
            kws["row_length"] = 256
        elif why == "row0":
            kws["row_length"] = 0
        elif why == "option":
            kws["no_such_option"] = 1
        elif why == "type":
            kws["record_type"] = 4
        elif why == "start":
            kws.update(record_type=1, start_address=0x10000)
        if name == "bin":
            kws = {"filler": b"ab"} if why == "option" else {"filler": 256}
            if why not in ("option", "type"):
                return None
        try:
            objutils.dumps(name, img, **kws)
        except Exception as e:
            reason = type(e)
        else:
            return "accepted"  # not a refusal for this codec
        old = b"previous contents\n" * 50
        with Scratch() as d:
            path = os.path.join(d, "out")
            with open(path, "wb") as f:
                f.write(old)
            if target == "path":
                expect_raises((reason,), objutils.dump, name, path, img, **kws, _what=f"{name}: dump of a refused image")
            else:
                sink = Sink()
                expect_raises((reason,), objutils.dump, name, sink, img, **kws, _what=f"{name}: dump of a refused image")
                check_eq(sink.getvalue(), b"", "output of a refused dump")
            with open(path, "rb") as f:
                check_eq(f.read(), old, f"{name}: existing file after a dump refused with {reason.__name__}")
            check_eq(sorted(os.listdir(d)), ["out"], "files left behind")
        return reason.__name__
    name, shape = p[0], p[1]
    secs = images.build(shape)
    img = images.make_image(secs)
    base = secs[0][0]
    if kind == "io_faults":
        _, _, op, k, exc = p
        exc = {"OSError": OSError, "ValueError": ValueError}[exc]
        doc = bytes(objutils.dumps(name, img))
        if op == "write":
            f = FaultyFile(op=op, k=k, exc=exc)
            try:
                objutils.dump(name, f, img)
            except exc:
                check(f.fired, "failed without a fault")
                f2 = Sink()
                objutils.dump(name, f2, img)
                check_eq(f2.getvalue(), doc, "dump after a failed one")
                return "raised"
            check(not f.fired, "%s: write error %d swallowed", name, k)
            check_eq(f.final if f.final is not None else f.getvalue(), doc, "document")
            return "complete"
        f = FaultyFile(doc, op=op, k=k, exc=exc)
        try:
            got = load(name, f, base)
        except exc:
            check(f.fired, "failed without a fault")
            check_eq(snap(load(name, io.BytesIO(doc), base)), secs, "load after a failed one")
            return "raised"
        check(not f.fired, "%s: read error %d swallowed", name, k)
        check_eq(snap(got), secs, "image")
        return "complete"
    # files
    name, shape, old, r = p
    kws = kwargs(name, r)
    doc = bytes(objutils.dumps(name, img, **kws))
    with Scratch() as d:
        path = os.path.join(d, "out")
        if old:
            with open(path, "wb") as f:
                f.write(b"#" * (3 if old == "short" else 100000))
        objutils.dump(name, path, img, **kws)
        with open(path, "rb") as f:
            check_eq(f.read(), doc, f"{name}: file written by path")
        fobj = open(os.path.join(d, "out2"), "wb")
        objutils.dump(name, fobj, img, **kws)
        if not fobj.closed:
            fobj.close()
        with open(os.path.join(d, "out2"), "rb") as f:
            check_eq(f.read(), doc, f"{name}: file written by object")
        sink = Sink()
        objutils.dump(name, sink, img, **kws)
        check_eq(sink.getvalue(), doc, f"{name}: file-like object")
        check_eq(snap(load(name, path, base)), secs, f"{name}: loaded by path")
        check_eq(snap(load(name, open(path, "rb"), base)), secs, f"{name}: loaded from file object")
        with open(path, "rb") as f:
            check_eq(f.read(), doc, "file after loading")
        # Positional row length, as documented by the in-memory variant.
        if kws:
            check_eq(bytes(objutils.dumps(name, img, r)), doc, "positional row length")
            sink = Sink()
            objutils.dump(name, sink, img, r)
            check_eq(sink.getvalue(), doc, "positional row length")
    return hash(doc)
