"""U01: the helper functions compute what their names say, for every argument; file views show the file; singletons are single."""

import ctypes
import enum
import itertools
import os
import shutil
import tempfile

from mc import core, sched
from mc.core import STATS, check, check_eq, expect_raises, pattern

ID = "U01"
LEVEL = "model_checking"
RULE = (
    "Numbers: all up to 2^16 and all with one or two bits set or cleared up to 2^70; sequences: all lengths up to 40 x all slice lengths up to 41 x 6 types; "
    "argument lists: all shapes of up to 4 arguments; files of 40 sizes x offsets x lengths, views before and after changes, replacement and removal of the file; "
    "singletons: all histories over a hierarchy of classes, all thread schedules up to the preemption bound."
)
BOUNDS = {"quick": "3 preemptions (2 threads), 2 (3 threads), 2 by byte code; histories of 5", "thorough": "one preemption more (2 threads); histories of 6"}
CASE_TIMEOUT = 300
ASSUMPTIONS = ["ffs and int_to_array take non-negative numbers, slices are at least one item long", "files do not shrink while they are mapped"]

FILE_SIZES = [1, 2, 3, 15, 16, 17, 255, 256, 257, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 100000, 1 << 20]


def spaces(tier):
    def numbers():
        for hi in range(256):
            yield ["low", hi]
        for k in range(70):
            yield ["bits", k]

    def slices():
        for kind in ("list", "tuple", "bytes", "bytearray", "str", "range"):
            for n in (*range(41), 255, 256, 257, 1000):
                yield [kind, n]

    def args():
        for first in range(len(ARGS)):
            yield [first]

    def curry():
        for pre in range(4):
            for kw in range(4):
                yield [pre, kw]

    def paths():
        for c in CHARS:
            yield [c]

    def structs():
        for v in range(4):
            yield [v]

    def files():
        for n in FILE_SIZES:
            yield [n]

    def views():
        for n in FILE_SIZES:
            for writeable in (False, True):
                for event in ("none", "removed", "replaced", "written by view", "grown", "second view"):
                    yield [n, writeable, event]

    def nofile():
        for what in ("missing", "directory", "empty", "unreadable name"):
            for writeable in (False, True):
                yield [what, writeable]

    def filler():
        for ch in range(256):
            yield [ch]

    def buffers():
        for n in (0, 1, 16, 4096, 65537):
            yield [n]

    def singles():
        for first in range(len(CLASSES)):
            yield [first, 5 if tier == "quick" else 6]

    def schedules():
        more = tier != "quick"
        for scen in ("same", "base+derived", "derived+derived2", "args"):
            yield [scen, 3 + more, "line"]
            yield [scen, 2 + more, "opcode"]
        for scen in ("same3", "all3"):
            yield [scen, 2, "line"]

    return {k: v for k, v in locals().items() if callable(v)}


def run_case(kind, p):
    return globals()["do_" + kind](*p)


# ---------------------------------------------------------------------------------------------------------


def number(v):
    from objutils.utils import ffs, int_to_array

    n = 0
    for x in int_to_array(v):
        check(isinstance(x, int) and 0 <= x <= 255, "%r in int_to_array(%#x)", x, v)
        n = n * 256 + x
    check_eq(n, v, f"value of int_to_array({v:#x})")
    check_eq(len(int_to_array(v)), max((v.bit_length() + 7) // 8, 1), f"length of int_to_array({v:#x})")
    bits = [i for i in range(v.bit_length()) if v // 2**i % 2]
    check_eq(ffs(v), bits[0] if bits else 0, f"ffs({v:#x})")


def do_numbers(what, x):
    if what == "low":
        for v in range(x << 8, (x + 1) << 8):
            number(v)
        return x
    for k in range(70):
        for v in {1 << x, 1 << x | 1 << k, (1 << x) - 1 if x else 0, (1 << x) + (1 << k), ((1 << x) - 1) ^ (1 << k), 0xFF << x, pattern(9, x)[k % 9] << x}:
            number(v)
    return x


def do_slices(kind, n):
    from objutils.utils import slicer

    raw = pattern(n, 3)
    src = {"list": list, "tuple": tuple, "bytes": bytes, "bytearray": bytearray, "str": lambda r: "".join(map(chr, r)), "range": lambda r: range(5, 5 + len(r))}[kind](raw)
    keep = list(src)
    out = []
    for size in [*range(1, 42), 255, 256, 257, 999, 1000, 1001, 1 << 16]:
        for conv in (None, list, lambda x: [*x][::-1]):
            if kind == "range" and conv is None:
                continue  # a range cannot be made of a range
            if kind == "str" and conv is None:
                got = [list(x) for x in slicer(src, size)]
                check(all(isinstance(x, str) for x in slicer(src, size)), "type of slices of a str")
            else:
                raw_got = slicer(src, size) if conv is None else slicer(src, size, conv)
                check(all(isinstance(x, type(src) if conv is None else list) for x in raw_got), "type of slices of %s", kind)
                got = [list(x) for x in raw_got]
            want = [keep[i * size : (i + 1) * size] for i in range((n + size - 1) // size)]
            if conv is not None and conv is not list:
                want = [w[::-1] for w in want]
            check_eq(got, want, f"{n} items of {kind} in slices of {size}")
            out.append(len(got))
            if isinstance(src, (list, bytearray)) and got and conv is None:
                piece = slicer(src, size)[0]
                piece[0] = 7
                check_eq(list(src), keep, "source after changing a slice")
    check_eq(list(src), keep, "source of the slices")
    return hash(tuple(out))


ARGS = [0, 5, [], [1], [1, 2, 3], (), (4,), b"", b"ab", bytearray(b"c"), "xy", range(3), [[1, 2], 3], None, {7: 8}, 2**40, -1, 1.5]


def do_args(first):
    from objutils.utils import make_list

    n = 0
    for rest in itertools.chain([()], *(itertools.product(range(len(ARGS)), repeat=k) for k in (1, 2, 3))):
        items = [ARGS[first], *(ARGS[i] for i in rest)]
        want = []
        for x in items:
            if isinstance(x, (list, tuple, bytes, bytearray, str, range, dict)):
                want += [y for y in x]
            else:
                want.append(x)
        before = repr(items)
        got = make_list(*items)
        check_eq(got, want, f"make_list{tuple(items)!r}")
        check(isinstance(got, list), "type of make_list")
        got.append("more")
        check_eq(repr(items), before, "arguments of make_list")
        n += 1
    check_eq(make_list(), [], "make_list()")
    check_eq(make_list(iter([1, 2]), (x for x in "ab")), [1, 2, "a", "b"], "make_list of iterators")
    check_eq(make_list(range(1000), list(range(1000))), [*range(1000), *range(1000)], "make_list of long arguments")
    return n


def do_curry(pre, kw):
    from objutils.utils import Curry

    def fun(*a, **k):
        return a, k

    first = list(range(pre))
    kws = {x: i for i, x in enumerate("abc"[:kw])}
    c = Curry(fun, *first, **kws)
    n = 0
    for seq in itertools.product(range(4), repeat=3):  # calls one after the other do not influence each other
        for k in seq:
            for kw2 in ({}, {"a": 9}, {"z": 5}, {"a": 1, "c": 4, "q": 0}):
                more = tuple(range(10, 10 + k))
                check_eq(c(*more, **kw2), ((*first, *more), {**kws, **kw2}), f"Curry of {first}, {kws} called with {more}, {kw2}")
                n += 1
    kws["new"] = 1
    check_eq(c(), (tuple(first), {k: v for k, v in kws.items() if k != "new"}), "Curry after changing the arguments")
    return n


CHARS = ["c", "C", "z", "d", "0"]


def do_paths(c):
    from objutils.utils import cygpath_to_win

    parts = ["a", "projects", "x.y", "cygdrive", "with space", "\u00e9"]
    n = 0
    for k in range(4):
        for names in itertools.product(parts, repeat=k):
            for tail in ("", "/") if k else ("/",):
                p = "/cygdrive/" + c + "".join("/" + x for x in names) + tail
                check_eq(cygpath_to_win(p), c + ":\\" + "\\".join(names) + ("\\" if tail and names else ""), p)
                n += 1
            for other in ("/" + "/".join(names), "/".join(names), c + ":\\" + "\\".join(names), "/cygdriv/" + c + "/x", "x/cygdrive/" + c + "/y", "/Cygdrive/" + c):
                if not other.startswith("/cygdrive/"):
                    check_eq(cygpath_to_win(other), other, "other path")
    return n


class Color(enum.IntEnum):
    RED = 0
    GREEN = 1
    BLUE = 255


def do_structs(v):
    from objutils.utils import StructureWithEnums

    class S(StructureWithEnums):
        _fields_ = [("a", ctypes.c_ubyte), ("b", ctypes.c_uint16), ("many", ctypes.c_ubyte * 3), ("plain", ctypes.c_uint32), ("raw", ctypes.c_ubyte * 2)]
        _map = {"a": Color, "b": Color, "many": Color}

    class T(StructureWithEnums):
        _fields_ = [("a", ctypes.c_ubyte)]

    n = 0
    for a, b, m in itertools.product(Color, Color, itertools.product(Color, repeat=3)):
        s = S(a, b, tuple(m), v << 24 | 5, (v, 255))
        t = T(int(a))
        check_eq((s.a, s.b, s.many, s.plain, list(s.raw), t.a), (a, b, list(m), v << 24 | 5, [v, 255], int(a)), "fields")
        check(type(s.a) is Color and type(s.b) is Color and all(type(x) is Color for x in s.many) and type(s.plain) is int and type(t.a) is int, "types of fields")
        text = str(s)
        check_eq(text.split("raw")[0], repr(s).split("raw")[0], "repr")
        for name in ("a", "b"):
            check(f" {name} [Color] = {getattr(s, name)!r};" in text, "%s is missing in %s", name, text)
        check("struct S {" in text and f"plain [c_uint] = {v << 24 | 5};" in text.replace("c_ulong", "c_uint"), "text %s", text)
        n += 1
    s = S(0, 7, (0, 1, 255))
    expect_raises((ValueError,), lambda: s.b, _what="value without a name")
    return n


def scratch():
    return tempfile.mkdtemp(prefix="mcu01")


def fds():
    return len(os.listdir("/proc/self/fd"))


def do_files(n):
    from objutils.utils import bin_extractor

    d = scratch()
    try:
        name = os.path.join(d, "f.bin")
        raw = pattern(n, 5)
        with open(name, "wb") as f:
            f.write(raw)
        before = fds()
        for off in sorted({0, 1, n // 2, n - 1, n, n + 5, min(n, 4096), min(n, 255)}):
            for m in sorted({0, 1, 2, 16, 255, 256, n, n + 1, 4096}):
                check_eq(bin_extractor(name, off, m), raw[off : off + m], f"{m} bytes at {off} of a file of {n}")
        check_eq(fds(), before, "open files")
        raw = bytes([0x0D, 0x0A, 0x1A, 0, 0x80, 0xFF, 0xC3, 0x28, 0x0D]) * 30
        with open(name, "wb") as f:
            f.write(raw)
        for off in range(20):
            for m in range(20):
                check_eq(bin_extractor(name, off, m), raw[off : off + m], f"{m} bytes at {off}")
        expect_raises((OSError,), bin_extractor, name + "x", 0, 1)
    finally:
        shutil.rmtree(d)
    return n


def do_views(n, writeable, event):
    from objutils.utils import create_memorymapped_fileview

    d = scratch()
    try:
        name = os.path.join(d, "f.bin")
        raw = pattern(n, 6)
        with open(name, "wb") as f:
            f.write(raw)
        before = fds()
        view = create_memorymapped_fileview(name, writeable) if writeable else create_memorymapped_fileview(name)
        want = bytearray(raw)
        if event == "removed":
            os.unlink(name)
        elif event == "replaced":
            with open(name + ".new", "wb") as f:
                f.write(pattern(n + 3, 8))
            os.replace(name + ".new", name)
        elif event == "grown":
            with open(name, "ab") as f:
                f.write(b"tail")
        elif event == "second view":
            other = create_memorymapped_fileview(name)
            check_eq(other.tobytes(), raw, "second view")
            other.release()
        if writeable and event == "written by view":
            for i in sorted({0, n // 2, n - 1}):
                view[i] = want[i] = want[i] ^ 0xFF
                with open(name, "rb") as f:
                    check_eq(f.read(), bytes(want), "file after writing to its view")
        elif not writeable:
            check(view.readonly, "view is not read-only")
            expect_raises((TypeError,), view.__setitem__, 0, 1)
        check_eq((len(view), view.tobytes()), (n, bytes(want)), f"view of a file of {n} bytes, {event}")
        check_eq((view[0], view[-1], bytes(view[n // 2 :])), (want[0], want[-1], bytes(want[n // 2 :])), "parts of the view")
        if event in ("none", "grown", "second view"):
            with open(name, "rb") as f:
                check_eq(f.read()[:n], raw, "file")
        del view
        check_eq(fds(), before, "open files")
    finally:
        shutil.rmtree(d)
    return n


def do_nofile(what, writeable):
    from objutils.utils import create_memorymapped_fileview

    d = scratch()
    try:
        name = os.path.join(d, "f")
        if what == "directory":
            os.mkdir(name)
        elif what == "empty":
            open(name, "wb").close()
        elif what == "unreadable name":
            name = "f\0g"
        before = fds()
        for _ in range(3):
            expect_raises((OSError, ValueError), create_memorymapped_fileview, name, writeable)
        check_eq(fds(), before, "open files after a refused view")
        check_eq(sorted(os.listdir(d)), [] if what in ("missing", "unreadable name") else ["f"], "directory")
    finally:
        shutil.rmtree(d)
    return what


def do_filler(ch):
    from objutils.section import filler

    for n in (*range(1, 40), 255, 256, 257, 65536, 65537):
        got = filler(ch, n)
        check_eq((type(got), bytes(got)), (bytearray, bytes([ch]) * n), f"filler({ch}, {n})")
        got[0] ^= 1
        check_eq(bytes(filler(ch, n)), bytes([ch]) * n, f"filler({ch}, {n}) again")
    for n in (0, -1, -256):
        expect_raises((ValueError,), filler, ch, n)
    for x in (-1, 256, 257, 1 << 16, -256, ch + 256, ch - 256):
        expect_raises((ValueError,), filler, x, 3)
    for bad in ("a", b"a", 1.0, None):
        expect_raises((TypeError,), filler, bad, 3)
        expect_raises((TypeError,), filler, ch, bad)
    return ch


def do_buffers(n):
    from objutils.utils import create_string_buffer

    raw = pattern(n, 2)
    a, b = create_string_buffer(raw), create_string_buffer(bytearray(raw))
    check_eq((a.read(), b.read()), (raw, raw), "content of the buffers")
    a.seek(0)
    a.write(b"zz")
    check_eq((b.getvalue(), create_string_buffer().getvalue()), (raw, b""), "other buffers")
    src = bytearray(raw)
    c = create_string_buffer(src)
    if n:
        src[0] ^= 1
    check_eq(c.read(), raw, "buffer after changing its source")
    return n


# ---------------------------------------------------------------------------------------------------------

CLASSES = ["A", "B", "C", "A1", "A2", "A11"]


def family():
    from objutils.utils import SingletonBase

    A = type("A", (SingletonBase,), {})
    B = type("B", (SingletonBase,), {})
    C = type("C", (SingletonBase,), {"__init__": lambda self, *a, **k: setattr(self, "seen", getattr(self, "seen", 0) + 1)})
    A1 = type("A1", (A,), {})
    A2 = type("A2", (A,), {})
    A11 = type("A11", (A1,), {})
    return {"A": A, "B": B, "C": C, "A1": A1, "A2": A2, "A11": A11}


def do_singles(first, depth):
    n = 0
    for rest in itertools.product(range(len(CLASSES)), repeat=depth - 1):
        fam, seen, calls = family(), {}, 0
        for i in (first, *rest):
            name = CLASSES[i]
            obj = fam[name](1, x=2) if name == "C" else fam[name]()
            check(type(obj) is fam[name], "%s() made a %s", name, type(obj).__name__)
            check(seen.setdefault(name, obj) is obj, "second instance of %s in %r", name, (first, *rest))
            if name == "C":
                calls += 1
                check_eq(obj.seen, calls, "initialisations")
        check_eq(len({id(o) for o in seen.values()}), len(seen), f"instances shared between classes in {(first, *rest)}")
        core.visit(tuple(sorted(seen)))
        STATS.traces += 1
        n += 1
    return n


def do_schedules(scenario, bound, granularity):
    sched.patch_locks()
    names = {"same": "AA", "base+derived": ["A", "A1"], "derived+derived2": ["A1", "A2"], "args": "CC", "same3": "AAA", "all3": ["A", "A1", "A11"]}[scenario]
    state = {}

    def make():
        state["fam"] = fam = family()

        def body(name):
            return lambda: fam[name](1, x=2) if name == "C" else fam[name]()

        return [body(x) for x in names]

    def judge(results):
        for r in results:
            check(r is not None and r[0] == "ok", "thread failed: %r", r)
        made = [r[1] for r in results]
        for x, obj in zip(names, made):
            check(type(obj) is state["fam"][x], "%s() made a %s", x, type(obj).__name__)
            check(state["fam"][x]() is obj, "a second instance of %s", x)
        check_eq(len({id(o) for o in made}), len({*names}), "number of instances")

    return sched.explore(make, judge, bound, granularity)
