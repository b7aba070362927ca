"""E04: the data base next to an ELF file never changes what is shown."""

import contextlib
import gc
import itertools
import os
import resource
import signal
import sys
import threading
import types

from mc import core, elfgen, elfs, fsrec
from mc.checks.e01 import image_of, offs_of, sec, seg, sym, symtabs, verify
from mc.core import STATS, HarnessError, Violation, check, check_eq, pattern

ID = "E04"
LEVEL = "fault_enumeration"
RULE = (
    "Every history of up to 3 (4) events out of 18 (rewrite the file or one of the same stem with another version of equal size and time stamp, open, keep "
    "open, drop without closing, damage / delete / exchange the data base, failed imports); every state a crash can leave while importing or re-opening: all "
    "prefixes of the recorded file system changes, each last write also cut off, followed by opening the same or another version (thorough: a "
    "second crash while recovering); an exception at every call and every SQL statement of the import; a full disk at every size; every single item of a small file, and bytes all over files of up to 300000 bytes (9 million), changed between two openings; the file replaced or removed at the first (and last) "
    "execution of every line while it is opened; repeated opening with few file descriptors; two parsers of the "
    "same data base under every schedule with up to 2 preemptions at SQL statements and file operations. Oracle: the generated ELF file."
)
ASSUMPTIONS = [
    "a crash is the end of the process: what was written before is on the disk, in order (SYNCHRONOUS=OFF does not protect against power loss)",
    "a second parser of the same file may be refused with an error while the first one is alive",
    "a damaged data base may be refused with an error",
    "a parser which was dropped without closing its data base, or whose construction was interrupted, may leave it locked until the process ends",
]
CASE_TIMEOUT = 300
FILES = ("a.elf", "a.out")


def version(k, size=40):
    """Versions of one program: same size (by default), different contents."""
    note = b"\4\0\0\0\4\0\0\0\1\0\0\0GNU\0" + bytes([k] * 4)
    ys = [sym(f"s{k}{i}", value=k * 16 + i, size=k, shndx=1) for i in range(3)]
    secs = [sec(f".text{k}", flags=6, addr=k << 8, data=pattern(size, k)), sec(f".data{k}", flags=3, addr=k << 8 | 0x80),
            sec(".note", type=7, flags=0, data=note), sec(".comment", flags=0, data=b"GCC %d\0" % k)]
    dyn = [sym(f"d{k}{i}", value=k * 32 + i, size=i, shndx=2) for i in range(2)]
    tabs, offs = symtabs(1, 1, ys, index=5)
    dtabs, doffs = symtabs(1, 1, dyn, strname=".dynstr", tabname=".dynsym", index=7, type=11)
    blob, meta = elfgen.build(1, 1, secs + tabs + dtabs, segments=[seg(vaddr=k)], entry=k, machine=(3, 8, 40, 83)[k % 4])
    return blob, meta, offs_of(ys, offs) + offs_of(dyn, doffs), k


VERSIONS = {"ABC"[k - 1]: version(k) for k in (1, 2, 3)}
GOOD = tuple(VERSIONS)
INVALID = VERSIONS["A"][0][:-100] + bytes(60)
_big = {}


def of(v):
    if v in VERSIONS:
        return VERSIONS[v]
    if v not in _big:
        _big[v] = version(*{"L": (4, 1600000), "M": (5, 1600000), "P": (6, 9000), "Q": (7, 9)}[v])
    return _big[v]


def verify_version(ep, v, what):
    blob, meta, ys, k = of(v)
    try:
        verify(ep, meta, ys)
        notes = [(n.section_name, n.type, n.name, n.desc) for n in ep.notes]
        check_eq(notes, [(".note", 1, "GNU", f"{k:02x}" * 4)], "notes")
        check_eq(ep.comment, f"GCC {k}", "comment")
        img = ep.create_image(join=False)
        check_eq([(s.start_address, bytes(s.data)) for s in img],
                 sorted((s["addr"], image_of(s)) for s in meta["sections"] if s["flags"] & 2 and image_of(s)), "image")
    except Violation as e:
        raise Violation(f"{what}: shown instead of version {v}: {e}") from e


def verify_briefly(ep, v, what):
    blob, meta, ys, k = of(v)
    want = (k, meta["machine"], [(s["name"], image_of(s)) for s in meta["sections"]], sorted(y["name"] for y in ys), [k])
    got = (ep.e_entry, ep.e_machine, [(s.section_name, s.section_image) for s in sorted(ep.sections.fetch(), key=lambda s: s.index)],
           sorted(y.symbol_name for g in ep.symbols.fetch().values() for y in g), [s.p_vaddr for s in ep.segments])
    check(got == want, "%s: another version is shown: %s", what, core._short(got))


def setup(tier):
    """Two connections of one process: fail at once instead of waiting for five seconds."""
    global CASE_TIMEOUT
    if tier != "quick":
        CASE_TIMEOUT = 1800
    import objutils.elf  # noqa: F401
    from sqlalchemy import event
    from sqlalchemy.engine import Engine

    @event.listens_for(Engine, "do_connect")
    def no_waiting(dialect, record, cargs, cparams):
        cparams["timeout"] = 0

    @event.listens_for(Engine, "connect")
    def connected(conn, record):
        CONNECTIONS.append(conn)

    @event.listens_for(Engine, "before_cursor_execute")
    def statement(*args):
        reached("sql")

    @event.listens_for(Engine, "commit")
    def commit(*args):
        reached("commit")

    def audit(name, args):
        if HOOK is not None and name in ("open", "os.remove", "os.rename", "sqlite3.connect") and "mc-elf-" in str(args[0] if args else ""):
            reached(name)

    sys.addaudithook(audit)


HOOK = None
CONNECTIONS = []  # all which were opened by this process


def end_of_process():
    """What the end of a process does to data bases which were not closed."""
    for c in CONNECTIONS:
        c.close()
    CONNECTIONS.clear()
    if len(os.listdir("/proc/self/fd")) > 200:  # memory maps of unreachable parsers
        gc.collect()


def reached(what):
    if HOOK is not None:
        HOOK(what)


@contextlib.contextmanager
def hook(f):
    global HOOK
    HOOK = f
    try:
        yield
    finally:
        HOOK = None


def spaces(tier):
    quick = tier == "quick"

    def histories():
        n = 3 if quick else 4
        for a in range(len(EVENTS)):
            for b in range(len(EVENTS)):
                yield [n, a, b]

    def crashes():
        parts = 16
        for scenario in range(len(SCENARIOS)):
            for follow in ("same", "other", "twin") if scenario < 2 or not quick else ("same",):
                for part in range(parts):
                    yield [scenario, follow, part, parts, quick]

    def big_crashes():
        parts = 32
        for scenario in range(2):
            for part in range(parts):
                yield [scenario, part, parts, 16 if quick else 1]

    def nested():
        if not quick:
            for scenario in range(2):
                for part in range(64):
                    yield [scenario, part, 64]

    def interrupts():
        for scenario in range(len(SCENARIOS)):
            for where in ("call", "sql"):
                for exc in ("KeyboardInterrupt", "MemoryError"):
                    if quick and (where, exc) in (("call", "MemoryError"), ("sql", "KeyboardInterrupt")):
                        continue
                    for part in range(4):
                        yield [scenario, where, exc, part, 4]

    def full():
        for scenario in range(len(SCENARIOS)):
            for part in range(4):
                yield [scenario, part, 4, 2048 if quick else 512]

    def races():
        for initial in ("none", "A", "B"):
            for other in ("a.elf", "a.out"):
                for part in range(8):
                    yield [initial, other, part, 8, 9 if quick else 1]

    def replaced():
        for old, new in (("A", "P"), ("A", "Q"), ("A", None)):
            for db in (None, old, new or "B"):
                for part in range(4):
                    yield [old, new, db, part, 4, quick]

    def edits():
        """One small change of the file: every single item of a small one, positions all over a large one."""
        for kind, n in (("content", 40), ("note", 4), ("comment", 6), ("header", 8), ("section", 40), ("segment", 8), ("symbol", 18), ("swap", 20)):
            for i in range(n):
                yield [kind, i, 40]
        for size in (5000, 70000, 300000) if quick else (5000, 70000, 300000, 1100000, 9000000):
            at = {0, size - 1, size // 2, size // 3}
            step = 1 << 10
            while step < size:
                at |= {step - 1, step, size - step, 3 * step // 2}
                step *= 2
            for p in range(4096, size, 4096 * (1 + size // (40 if quick else 200) // 4096)):
                at |= {p - 1, p}
            for p in sorted(x for x in at if 0 <= x < size):
                yield ["content", p, size]
            yield ["swap", 3, size]

    def many():
        for kind in ("good", "other version", "invalid", "missing db"):
            yield [kind, 60 if quick else 300]

    def names():
        for n in range(len(FILENAMES)):
            yield [n]

    return {"histories": histories, "crashes": crashes, "interrupts": interrupts, "full": full, "races": races, "names": names, "replaced": replaced, "many": many, "edits": edits,
            "big_crashes": big_crashes, "nested": nested}


def run_case(kind, p):
    return globals()["do_" + kind](*p)


# ---------------------------------------------------------------------------------------------------------


def put(d, name, blob):
    """Same size, same time stamp: only the content tells versions apart."""
    path = os.path.join(d, name)
    elfs.write(path, blob)
    os.utime(path, (1_000_000_000, 1_000_000_000))


_databases = {}


def database(v):
    """Data base as left by importing version `v`."""
    if v not in _databases:
        with elfs.scratch() as d:
            put(d, "a.elf", of(v)[0])
            with elfs.opened(os.path.join(d, "a.elf")):
                pass
            with open(os.path.join(d, "a.prgdb"), "rb") as f:
                _databases[v] = f.read()
    return _databases[v]


def edited(kind, i, size):
    """(file, meta, symbols) of the program with one item changed, everything else and the size equal."""
    ys = [sym(f"s{k}", value=k * 16 + 1, size=k, shndx=1 + k % 2, bind=k % 3, type=k % 4) for k in range(3)]
    text = bytearray(pattern(size, 1))
    secs = [sec(".text1", flags=6, addr=0x100), sec(".data1", flags=3, addr=0x80), sec(".rodata", flags=2, addr=0x100000),
            sec(".note", type=7, flags=0), sec(".comment", flags=0)]
    note, comment = bytearray(b"abcd"), bytearray(b"GCC 11")
    segs = [seg(), seg(vaddr=0x4000)]
    head = dict(entry=0x10, machine=40, flags=0x5000000, etype=2, osabi=0, abiversion=0)
    if kind == "content":
        text[i] ^= 1 << i % 8
    elif kind == "note":
        note[i] ^= 1
    elif kind == "comment":
        comment[i] ^= 1
    elif kind == "swap":
        a, b = i, size - 1 - i
        assert a != b
        text[a], text[b] = text[b], text[a]
        if text[a] == text[b]:
            text[a] ^= 1
            text[b] ^= 1
    elif kind == "header":
        head[[*head][i % 6]] += 1
        if i >= 6:
            head["entry"] += 1 << (8 * (i - 5))
    elif kind == "section":
        s, f = secs[i % 5], ("name", "addr", "info", "align", "entsize", "link", "flags", "type")[i // 5]
        if f == "name":
            s["name"] = s["name"][:-1] + "X"
        elif f == "type":
            s["type"] = 0x60000001
        else:
            s[f] = s[f] ^ 0x10
    elif kind == "segment":
        segs[1][[*segs[1]][i]] += 1
    elif kind == "symbol":
        y, f = ys[i % 3], ("name", "value", "size", "bind", "other", "shndx")[i // 3]
        y[f] = "sX" if f == "name" else y[f] ^ 3 if f == "shndx" else y[f] ^ 1
    blob = b"\4\0\0\0\4\0\0\0\1\0\0\0GNU\0" + bytes(note)
    secs[0]["data"], secs[1]["data"], secs[2]["data"], secs[3]["data"], secs[4]["data"] = bytes(text), b"data", b"const", blob, bytes(comment) + b"\0"
    tabs, offs = symtabs(1, 1, ys, index=6)
    blob, meta = elfgen.build(1, 1, secs + tabs, segments=segs, **head)
    return blob, meta, offs_of(ys, offs), bytes(note).hex() if secs[3]["type"] == 7 else None, bytes(comment).decode() if secs[4]["name"] == ".comment" else None


def do_edits(kind, i, size):
    """The changed file is shown as it is, and so is the first one when it comes back."""
    old, new = edited(None, 0, size), edited(kind, i, size)
    check(old[0] != new[0] and len(old[0]) == len(new[0]), "not an edit")

    def look(d, x, what):
        blob, meta, ys, note, comment = x
        put(d, "b.elf", blob)
        os.rename(os.path.join(d, "b.elf"), os.path.join(d, "a.elf"))
        with elfs.opened(os.path.join(d, "a.elf")) as ep:
            verify(ep, meta, ys)
            check_eq([n.desc for n in ep.notes], [note] if note else [], f"{what}: notes")
            check_eq(ep.comment, comment, f"{what}: comment")

    with elfs.scratch() as d:
        for what, x in (("first", old), ("edited", new), ("first again", old), ("edited again", new), ("edited, unchanged", new)):
            try:
                look(d, x, what)
            except Violation as e:
                raise Violation(f"{what}: {e}") from e
    return kind, i, size


def show(d, name, v, what):
    with elfs.opened(os.path.join(d, name)) as ep:
        verify_version(ep, v, what)


# Histories ------------------------------------------------------------------------------------------------

EVENTS = ["write A", "write B", "write C", "write invalid", "twin B", "open", "open twin", "keep", "release", "drop", "new process", "no db", "empty db",
          "half db", "junk db", "db of A", "db of C", "open twice"]


class World:
    def __init__(self, d):
        self.d = d
        self.version = {"a.elf": "A", "a.out": "C"}
        self.damaged = False  # a data base which needs not be usable
        self.kept = None
        self.dropped = False  # SQLAlchemy keeps the connection of a data base which was not closed
        put(d, "a.elf", of("A")[0])
        put(d, "a.out", of("C")[0])

    def db(self, blob):
        # A data base in use is replaced, not overwritten: nobody can protect itself against the latter.
        path = os.path.join(self.d, "a.prgdb")
        with contextlib.suppress(FileNotFoundError):
            os.unlink(path)
        for suffix in ("-journal", "-wal", "-shm"):
            with contextlib.suppress(FileNotFoundError):
                os.unlink(path + suffix)
        self.damaged = False
        if blob is not None:
            elfs.write(path, blob)

    def attempt(self, name, f):
        """`f` has to work, unless there is a reason to refuse."""
        reason = self.damaged or self.dropped or self.kept is not None or self.version[name] == "X"
        try:
            return f()
        except Violation:
            raise
        except Exception as e:
            if not reason:
                raise Violation(f"{name} (version {self.version[name]}) cannot be opened: {type(e).__name__}: {e}") from e
        else:
            check(self.version[name] != "X", "invalid file accepted")
        return None

    def apply(self, ev):
        from objutils.elf import ElfParser

        d = self.d
        if ev.startswith("write "):
            v = ev[6:]
            self.version["a.elf"] = v if v in VERSIONS else "X"
            # A new file, as linkers do: the old one stays mapped by a parser which is still in use.
            os.unlink(os.path.join(d, "a.elf"))
            put(d, "a.elf", of(v)[0] if v in VERSIONS else INVALID)
        elif ev == "twin B":
            os.unlink(os.path.join(d, "a.out"))
            self.version["a.out"] = "B"
            put(d, "a.out", of("B")[0])
        elif ev in ("open", "open twin", "open twice"):
            name = "a.out" if ev == "open twin" else "a.elf"

            def f():
                for i in range(2 if ev == "open twice" else 1):
                    show(d, name, self.version[name], f"{ev} {name}")

            self.attempt(name, f)
        elif ev == "keep":
            if self.kept is None:
                v = self.version["a.elf"]
                ep = self.attempt("a.elf", lambda: ElfParser(os.path.join(d, "a.elf")))
                if ep is not None:
                    self.kept = (ep, v)
        elif ev == "release":
            if self.kept is not None:
                self.kept[0].db.close()
                self.kept = None
        elif ev == "drop":
            self.dropped = self.dropped or self.kept is not None
            self.kept = None
        elif ev == "new process":
            self.kept, self.dropped = None, False
            end_of_process()
        elif ev == "no db":
            self.db(None)
        elif ev == "empty db":
            self.db(b"")
        elif ev == "half db":
            b = database("A")
            self.db(b[: len(b) // 2])
            self.damaged = True
        elif ev == "junk db":
            self.db(b"this is not a data base " * 400)
            self.damaged = True
        elif ev.startswith("db of "):
            self.db(database(ev[6:]))
        if self.kept is not None:
            verify_version(*self.kept, f"parser opened before {ev!r}")
        for n, v in self.version.items():
            with open(os.path.join(d, n), "rb") as f:
                check(f.read() == (of(v)[0] if v != "X" else INVALID), "%s was changed by %r", n, ev)

    def finish(self):
        if self.kept is not None:
            self.kept[0].db.close()
            self.kept = None
        end_of_process()
        if self.damaged:  # The user removes what cannot be read.
            self.db(None)
        for n in FILES:
            if self.version[n] != "X":
                show(self.d, n, self.version[n], f"finally, {n}")
        if self.version["a.elf"] == "X":
            put(self.d, "a.elf", of("B")[0])
            show(self.d, "a.elf", "B", "finally, repaired file")


def target(ev):
    """What an event overwrites completely."""
    return "file" if ev.startswith("write") else "db" if ev.endswith(" db") or ev.startswith("db of") else "twin" if ev.startswith("twin") else ev


def do_histories(n, a, b):
    seen = 0
    for rest in itertools.product(range(len(EVENTS)), repeat=n - 2):
        hist = [EVENTS[i] for i in (a, b, *rest)]
        if any(target(x) == target(y) and not x.startswith("open") for x, y in zip(hist, hist[1:])):
            continue  # same as without the first of both
        with elfs.scratch() as d:
            w = World(d)
            done = []
            try:
                for ev in hist:
                    done.append(ev)
                    w.apply(ev)
                    core.visit((tuple(sorted(w.version.items())), w.damaged, w.kept and w.kept[1], tuple(sorted(os.listdir(d))), ev))
                w.finish()
            except Violation as e:
                raise Violation(f"history {done}: {e}") from e
            except Exception as e:
                raise Violation(f"history {done}: unexpected {type(e).__name__}: {e}") from e
            finally:
                w.kept = None
        STATS.traces += 1
        seen += 1
    return seen


# Crashes --------------------------------------------------------------------------------------------------

SCENARIOS = [("A", None), ("A", "B"), ("A", "A"), ("A", "")]  # (version of the file, data base: none, of a version, empty)


def prepare(d, scenario, versions=SCENARIOS):
    v, db = versions[scenario]
    put(d, "a.elf", of(v)[0])
    put(d, "a.out", of("C")[0])
    if db is not None:
        elfs.write(os.path.join(d, "a.prgdb"), database(db) if db else b"")
    return v, db


def recover(d, v, follow, what):
    if follow == "other":
        v = {"A": "B", "L": "M"}[v]
        put(d, "a.elf", of(v)[0])
    name = "a.out" if follow == "twin" else "a.elf"
    v = "C" if follow == "twin" else v
    for i in (1, 2):
        try:
            show(d, name, v, f"{what}, opening {name} number {i}")
        except Violation:
            raise
        except Exception as e:
            raise Violation(f"{what}, opening {name} number {i}: {type(e).__name__}: {e}") from e


def traced(d):
    before = fsrec.load(d)
    err, ops = fsrec.recorder().record(d, "a.elf")
    check_eq(err, None, "import in another process")
    files = {k: bytearray(x) for k, x in before.items()}
    for op in ops:
        fsrec.apply(files, *op)
    after = fsrec.load(d)
    if {k: bytes(x) for k, x in files.items()} != after:
        raise HarnessError("the recorded changes do not give the final state")
    return before, ops


def do_crashes(scenario, follow, part, parts, brief):
    n = 0
    with elfs.scratch() as d:
        v, db = prepare(d, scenario)
        before, ops = traced(d)
        check(not (db == v and ops), "re-opening an unchanged file writes to the disk")
        cuts = (2,) if brief else (1, 2, -1)
        for i, (what, files) in enumerate(fsrec.states(before, ops, cuts)):
            if i % parts != part or (brief and follow != "same" and "cut off" in what):
                continue
            fsrec.store(d, files)
            recover(d, v, follow, f"crash {what}")
            STATS.fault_points += 1
            n += 1
    return n


def do_big_crashes(scenario, part, parts, step):
    """Imports which do not fit into the cache: parts of them reach the data base before they are committed."""
    n = 0
    with elfs.scratch() as d:
        v, db = prepare(d, scenario, [("L", None), ("L", "B")])
        before, ops = traced(d)
        for i, (what, files) in enumerate(fsrec.states(before, ops)):
            if i % parts != part or i // parts % step:
                continue
            fsrec.store(d, files)
            recover(d, v, "same" if i // parts % (2 * step) else "other", f"crash {what}")
            put(d, "a.elf", of(v)[0])
            STATS.fault_points += 1
            n += 1
    return n


def do_nested(scenario, part, parts):
    """A second crash, while recovering from the first one."""
    n = 0
    with elfs.scratch() as d:
        v, db = prepare(d, scenario)
        before, ops = traced(d)
        first = [(what, {k: bytes(b) for k, b in files.items()}) for what, files in fsrec.states(before, ops) if "cut off" not in what]
        for what, files in first[part::parts]:
            fsrec.store(d, files)
            before2, ops2 = traced(d)
            for what2, files2 in fsrec.states(before2, ops2):
                if "cut off" in what2:
                    continue
                fsrec.store(d, files2)
                recover(d, v, "same", f"crash {what}, then {what2}")
                STATS.fault_points += 1
                n += 1
    return n


# Exceptions and resources ---------------------------------------------------------------------------------


def library_code():
    """The code of all functions of the ELF package (and what they contain)."""
    found = set()

    def walk(x):
        if isinstance(x, types.CodeType):
            if x not in found and "objutils" in x.co_filename:
                found.add(x)
                for c in x.co_consts:
                    walk(c)
        elif isinstance(x, property):
            for f in (x.fget, x.fset, x.fdel):
                walk(f)
        elif isinstance(x, (staticmethod, classmethod)):
            walk(x.__func__)
        elif isinstance(x, type):
            if x.__module__.startswith("objutils") and x not in classes:
                classes.add(x)
                for y in list(vars(x).values()):
                    walk(y)
        elif isinstance(x, types.FunctionType):
            walk(x.__code__)
            walk(vars(x).get("__wrapped__"))

    classes = set()
    for name, mod in list(sys.modules.items()):
        if name == "objutils" or name.startswith("objutils."):
            for x in list(vars(mod).values()):
                walk(x)
    return sorted(found, key=lambda c: (c.co_filename, c.co_firstlineno))


@contextlib.contextmanager
def monitored(event, point):
    """Calls point(code, line or offset) at every `event` in the library."""
    mon = sys.monitoring
    codes = library_code()
    mon.use_tool_id(mon.DEBUGGER_ID, "mc")
    try:
        mon.register_callback(mon.DEBUGGER_ID, event, point)
        for code in codes:
            mon.set_local_events(mon.DEBUGGER_ID, code, event)
        yield
    finally:
        for code in codes:
            mon.set_local_events(mon.DEBUGGER_ID, code, 0)
        mon.register_callback(mon.DEBUGGER_ID, event, None)
        mon.free_tool_id(mon.DEBUGGER_ID)


def do_interrupts(scenario, where, exc, part, parts):
    """An exception at every call of a library function / every SQL statement."""
    import sqlalchemy
    from objutils.elf import ElfParser

    locked = 0
    exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[exc]
    n = 0

    def run(d, k):
        """Number of points passed, whether the exception came out."""
        count = 0

        def point(*args):
            nonlocal count
            count += 1
            if count == k:
                raise exc("planted")

        def started(code, offset):
            point()

        ep = None
        try:
            if where == "call":
                with monitored(sys.monitoring.events.PY_START, started):
                    ep = ElfParser(os.path.join(d, "a.elf"))
            else:
                with hook(point):
                    ep = ElfParser(os.path.join(d, "a.elf"))
        except exc:
            pass
        except Exception:  # the planted exception made something else fail
            assert count >= k > 0
        if ep is not None:
            verify_version(ep, SCENARIOS[scenario][0], "parser whose construction was disturbed")
            ep.db.close()
        return count

    with elfs.scratch() as d:
        prepare(d, scenario)
        before = fsrec.load(d)
        total = run(d, 0)
        for k in range(1 + part, total + 1, parts):
            fsrec.store(d, before)
            run(d, k)
            try:
                show(d, "a.elf", SCENARIOS[scenario][0], f"{exc.__name__} at {where} {k} of {total}, opening in the same process")
            except sqlalchemy.exc.OperationalError as e:
                check("database is locked" in str(e), "%s at %s %d of %d, opening in the same process: %s", exc.__name__, where, k, total, e)
                locked += 1
            end_of_process()
            recover(d, SCENARIOS[scenario][0], "same", f"{exc.__name__} at {where} {k} of {total}")
            STATS.fault_points += 1
            n += 1
    return n, locked


def do_full(scenario, part, parts, step):
    """No file may grow beyond a limit (as on a full disk)."""
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    limits = range(0, len(database("A")) + 2 * step, step)
    refused = 0
    with elfs.scratch() as d:
        prepare(d, scenario)
        before = fsrec.load(d)
        for limit in list(limits)[part::parts]:
            fsrec.store(d, before)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
            try:
                show(d, "a.elf", SCENARIOS[scenario][0], f"limit of {limit} bytes")
            except Violation:
                raise
            except Exception:
                refused += 1
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, old)
            recover(d, SCENARIOS[scenario][0], "same", f"after a limit of {limit} bytes")
            STATS.fault_points += 1
    return refused


# Two parsers ----------------------------------------------------------------------------------------------


class Turns:
    """Two threads take turns: thread 0 makes `i` steps, thread 1 `j` steps, then thread 0 and thread 1 to their ends."""

    def __init__(self, i, j):
        self.plan = [(0, i), (1, j), (0, None), (1, None)]
        self.cond = threading.Condition()
        self.ids = {}
        self.done = [False, False]
        self.steps = [0, 0]
        self.settle()

    def settle(self):
        while self.plan and (self.done[self.plan[0][0]] or self.plan[0][1] == 0):
            self.plan.pop(0)

    def wait(self, me):
        while self.plan and self.plan[0][0] != me:
            if not self.cond.wait(timeout=60):
                raise HarnessError("threads do not take turns")

    def point(self, what):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        with self.cond:
            self.steps[me] += 1
            if self.plan and self.plan[0][0] == me and self.plan[0][1] is not None:
                self.plan[0] = (me, self.plan[0][1] - 1)
                self.settle()
                self.cond.notify_all()
            self.wait(me)

    def start(self, me):
        with self.cond:
            self.ids[threading.get_ident()] = me
            self.wait(me)

    def finish(self, me):
        with self.cond:
            self.done[me] = True
            self.settle()
            self.cond.notify_all()


def race(d, names, versions, i, j):
    """Outcome and number of steps of both parsers."""
    turns = Turns(i, j)
    result = [None, None]

    def body(me):
        turns.start(me)
        try:
            try:
                with elfs.opened(os.path.join(d, names[me])) as ep:
                    verify_briefly(ep, versions[me], f"parser {me + 1}")
                result[me] = "right"
            except Violation as e:
                result[me] = e
            except Exception as e:
                result[me] = "refused: " + type(e).__name__
        except BaseException as e:
            result[me] = e
        finally:
            turns.finish(me)

    threads = [threading.Thread(target=body, args=(me,), daemon=True) for me in (0, 1)]
    with hook(turns.point):
        for t in threads:
            t.start()
        for t in threads:
            t.join(120)
            if t.is_alive():
                raise HarnessError("parser does not end")
    end_of_process()
    return result, turns.steps


def do_races(initial, other, part, parts, step):
    names = ("a.elf", other)
    versions = ("A", "A" if other == "a.elf" else "C")
    outcomes = set()
    with elfs.scratch() as d:
        put(d, "a.elf", of("A")[0])
        put(d, "a.out", of("C")[0])
        if initial != "none":
            elfs.write(os.path.join(d, "a.prgdb"), database(initial))
        before = fsrec.load(d)
        i = part
        while True:
            more = False
            j, limit = 1, None
            while True:
                fsrec.store(d, before)
                result, steps = race(d, names, versions, i, j)
                STATS.schedules += 1
                for r in result:
                    if isinstance(r, BaseException):
                        raise Violation(f"data base of {initial}; {names[0]} makes {i} steps, {names[1]} {j}, then both to their ends: {r}") from r
                outcomes.add(tuple(result))
                for n, v in zip(names, versions):
                    try:
                        show(d, n, v, "afterwards")
                    except Exception as e:
                        raise Violation(f"data base of {initial}; {names[0]} makes {i} steps, {names[1]} {j}, then both to their ends: afterwards: {e}") from e
                more = steps[0] >= i
                if limit is not None or j > 400:
                    break
                # j-th switch not reached any more: one more run, with thread 1 running to its end without a break, is the same schedule.
                if steps[1] < j:
                    break
                j += step
            if not more:
                break
            i += parts
    return sorted(outcomes)


FILENAMES = ["a b.elf", "a%20b.elf", "a?x=1.elf", "a?mode=ro.elf", "a#b.elf", "noext", "\xe9\u4e2d.elf", ".hidden", "a:b.elf", "a;b.elf", "a'b\".elf", "a..elf",
             "a.b.c.elf", "x@y.elf", "a\\b.elf", "a&b=c.elf", "file:a.elf", "memory", "-a.elf", "a//b.elf", "$HOME.elf", "~.elf", "a*.elf", "[a].elf", "d?r/a.elf", "d%41/a.elf"]


def do_replaced(old, new, db, part, parts, brief):
    """The file is replaced (or vanishes) at the first / last execution of every line while it is opened."""
    from objutils.elf import ElfParser

    n = refused = 0

    def run(d, at):
        """Points passed; replaces the file at point number `at`."""
        path = os.path.join(d, "a.elf")
        seen = []

        def point(code, line):
            seen.append((code, line))
            if len(seen) == at:
                if new is None:
                    os.unlink(path)
                else:
                    elfs.write(path + ".new", of(new)[0])
                    os.replace(path + ".new", path)

        ep = None
        try:
            with monitored(sys.monitoring.events.LINE, point):
                ep = ElfParser(path)
        except FileNotFoundError:
            check(at and new is None, "no such file")
        if ep is not None:
            try:
                shown = old if ep.e_entry == of(old)[3] else new or old
                check(at or shown == old, "another version is shown")
                verify_version(ep, shown, f"replaced by {new} at {seen[at - 1][0].co_name}:{seen[at - 1][1]}" if at else "undisturbed")
            finally:
                ep.db.close()
        return seen, ep is None

    with elfs.scratch() as d:
        put(d, "a.elf", of(old)[0])
        if db is not None:
            elfs.write(os.path.join(d, "a.prgdb"), database(db))
        before = fsrec.load(d)
        run(d, 0)  # lazy initialisations
        fsrec.store(d, before)
        points, _ = run(d, 0)
        first, last = {}, {}
        for i, x in enumerate(points, 1):
            first.setdefault(x, i)
            last[x] = i
        for at in sorted({*first.values(), *([] if brief else last.values())})[part::parts]:
            fsrec.store(d, before)
            refused += run(d, at)[1]
            if new is None:
                put(d, "a.elf", of(old)[0])
            recover(d, new or old, "same", f"replaced by {new} at line event {at}")
            STATS.fault_points += 1
            n += 1
    return n, refused


def do_many(kind, times):
    """One process opens files again and again; it may have a few file descriptors at a time only."""
    from objutils.elf import ElfParser

    with elfs.scratch() as d:
        path = os.path.join(d, "a.elf")
        put(d, "a.elf", of("A")[0])
        show(d, "a.elf", "A", "first")
        old = resource.getrlimit(resource.RLIMIT_NOFILE)
        gc.collect()
        resource.setrlimit(resource.RLIMIT_NOFILE, (max(int(x) for x in os.listdir("/proc/self/fd")) + 30, old[1]))
        try:
            for i in range(times):
                v = "A"
                if kind == "missing db":
                    os.unlink(os.path.join(d, "a.prgdb"))
                elif kind == "other version":
                    v = "AB"[i & 1]
                    put(d, "a.elf", of(v)[0])
                elif kind == "invalid":
                    elfs.write(path, INVALID)
                    try:
                        ElfParser(path).db.close()
                    except OSError:
                        raise
                    except Exception:
                        pass
                    put(d, "a.elf", of("A")[0])
                try:
                    with elfs.opened(path) as ep:
                        verify_briefly(ep, v, f"opening number {i}")
                except OSError as e:
                    raise Violation(f"{kind}, opening number {i} in a process: {e}") from e
                if i % 8 == 7:
                    gc.collect()
        finally:
            resource.setrlimit(resource.RLIMIT_NOFILE, old)
    return times


def do_names(n):
    """Any file name; another file which differs in the name only is left alone."""
    with elfs.scratch() as d:
        path = os.path.join(d, FILENAMES[n])
        os.makedirs(os.path.dirname(path), exist_ok=True)
        bystander = os.path.join(os.path.dirname(path), "a")
        elfs.write(bystander, b"keep")
        for v in ("A", "B", "A"):
            elfs.write(path, of(v)[0])
            for i in range(2):
                with elfs.opened(path) as ep:
                    verify_version(ep, v, FILENAMES[n])
        cwd = os.getcwd()
        try:
            os.chdir(os.path.dirname(path))
            for v in ("A", "B"):
                elfs.write(path, of(v)[0])
                with elfs.opened("./" + os.path.basename(path)) as ep:
                    os.chdir("/")
                    verify_version(ep, v, f"relative {FILENAMES[n]}")
                    os.chdir(os.path.dirname(path))
        finally:
            os.chdir(cwd)
        with open(bystander, "rb") as f:
            check_eq(f.read(), b"keep", "another file")
        with open(path, "rb") as f:
            check(f.read() == of("B")[0], "the file was changed")
    return n
