"""R01: the codec registry is one consistent map under every history and every thread schedule."""

from mc import core, sched
from mc.core import check, check_eq, expect_raises

ID = "R01"
LEVEL = "model_checking"
RULE = (
    "Histories: breadth-first search over register/lookup/list/re-construct operations against a dictionary. Schedules: all "
    "interleavings (every executed line of library code is a scheduling point) of 2-3 threads up to the preemption bound."
)
BOUNDS = {"quick": "line granularity: 3 preemptions (2 threads), 2 (3 threads); byte code granularity: 2", "thorough": "one preemption more everywhere"}
CASE_TIMEOUT = 300
ASSUMPTIONS = ["the interpreter switches threads between lines (thorough: between byte codes)"]

NAMES = ["alpha", "ALPHA", "beta"]


def fresh_registry_class():
    """A registry class of its own, so histories do not leak into the module level instance."""
    from objutils.registry import Registry

    return type("ScratchRegistry", (Registry,), {})


class Rd:
    pass


class Wr:
    pass


def codec_classes(i):
    return type(f"R{i}", (), {}), type(f"W{i}", (), {})


def spaces(tier):
    scen2 = ["same", "case", "different", "register+get", "register+list", "construct", "construct+register"]
    scen3 = ["same3", "register2+get", "construct3"]

    def histories():
        for first in range(len(EVENTS)):
            yield [first, 4 if tier == "quick" else 5]

    def schedules():
        for s in scen2:
            yield [s, 3 if tier == "quick" else 4, "line"]
        for s in scen3:
            yield [s, 2 if tier == "quick" else 3, "line"]
        for s in scen2:
            yield [s, 2 if tier == "quick" else 3, "opcode"]

    def builtin():
        yield ["codecs"]

    def names():
        for n in CODEC_NAMES:
            yield [n]

    return {"builtin": builtin, "names": names, "histories": histories, "schedules": schedules}


CODEC_NAMES = ["ash", "bin", "binzip", "cosmac", "emon52", "etek", "fpc", "ihex", "mostec", "rca", "shf", "sig", "srec", "tek", "titxt"]
CHARS = [*map(chr, range(128)), "\xa0", "\xdf", "\u017f", "\u0131", "\ufb01", "\u200b", "\ufeff"]

EVENTS = [("register", n, i) for i, n in enumerate(NAMES)] + [("get", "alpha"), ("get", "Alpha"), ("get", "beta"), ("construct",)]


def run_case(kind, p):
    return {"names": near_names, "histories": histories, "schedules": schedules, "builtin": builtin}[kind](*p)


def builtin(what):
    import objutils
    from objutils.registry import CodecDoesNotExistError, Registry, registry

    want = set(CODEC_NAMES)
    check(want <= set(registry.formats), "missing codecs: %r", want - set(registry.formats))
    check(Registry() is registry, "a second registry exists")
    check(want <= set(Registry().formats), "re-construction lost codecs")
    for n in want:
        for name in (n, n.upper(), n.capitalize()):
            check(registry.get(name) is registry.get(n), "%s looked up differently", name)
    mods = {n: getattr(objutils, "binfile" if n == "bin" else n) for n in want - {"binzip"}}
    for n, m in mods.items():
        check_eq((registry.get(n).Reader, registry.get(n).Writer), (m.Reader, m.Writer), f"classes of codec {n}")
    for n in ("", "nope", "srec2", "S19"):
        expect_raises((CodecDoesNotExistError,), registry.get, n)
        for f in (objutils.loads, objutils.dumps):
            expect_raises((CodecDoesNotExistError,), f, n, b"")
    return len(registry.formats)


def near_names(name):
    """Every name one insertion, deletion or replacement away, and some with white space: only case may differ."""
    import itertools

    from objutils.registry import CodecDoesNotExistError, registry

    known = {n.lower() for n in registry.formats}
    codec = registry.get(name)
    near = {name[:i] + c + name[i + d :] for i in range(len(name) + 1) for c in ["", *CHARS] for d in (0, 1)}
    near |= {a + name + b for a in ("", " ", "\t", "\n", ".") for b in ("", " ", "\n", "\0", ".hex") if a + b}
    near |= {name[::-1], name * 2, name + "," + name}
    near |= {"".join(p) for p in itertools.product(*((c, c.upper()) for c in name))}
    refused = 0
    for n in sorted(near):
        if n.lower() in known:
            if n.lower() == name:
                check(registry.get(n) is codec, "%r looked up differently", n)
        else:
            expect_raises((CodecDoesNotExistError,), registry.get, n, _what=f"lookup of {n!r}")
            refused += 1
    return refused


def observe(reg, model):
    check_eq(list(reg.formats), sorted(model), "formats")
    check_eq({k: (c.Reader, c.Writer, c.description) for k, c in reg}, model, "iteration")
    for n in NAMES + ["Beta", "gamma", "", " alpha", "alpha ", "alph", "lpha", "alphaa", "alpha\n", "bet\u0251"]:
        from objutils.registry import CodecDoesNotExistError

        if n.lower() in model:
            c = reg.get(n)
            check_eq((c.Reader, c.Writer, c.description), model[n.lower()], f"get({n})")
        else:
            expect_raises((CodecDoesNotExistError,), reg.get, n)


def histories(first, depth):
    from objutils.registry import CodecAlreadyExistError

    classes = [codec_classes(i) for i in range(len(NAMES))]

    def make():
        cls = fresh_registry_class()
        state = [cls, cls(), {}]
        if first is not None:
            step(state, EVENTS[first])
        return state

    def step(state, ev):
        cls, reg, model = state
        if ev[0] == "register":
            _, name, i = ev
            r, w = classes[i]
            if name.lower() in model:
                expect_raises((CodecAlreadyExistError,), reg.register, name, r, w, f"d{i}")
            else:
                reg.register(name, r, w, f"d{i}")
                model[name.lower()] = (r, w, f"d{i}")
        elif ev[0] == "construct":
            again = cls()
            check(again is reg, "not a singleton")
        observe(reg, model)

    return core.bfs(make, lambda s: EVENTS, step, lambda s: tuple(sorted((k, v[2]) for k, v in s[2].items())), depth)


def schedules(scenario, bound, granularity):
    from objutils.registry import CodecAlreadyExistError, CodecDoesNotExistError

    sched.patch_locks()
    classes = [codec_classes(i) for i in range(3)]
    state = {}

    def reg_body(name, i):
        def body():
            try:
                state["reg"].register(name, *classes[i], f"d{i}")
                return "registered"
            except CodecAlreadyExistError:
                return "refused"

        return body

    def get_body(name):
        def body():
            try:
                return state["reg"].get(name).description
            except CodecDoesNotExistError:
                return "unknown"

        return body

    def construct_body():
        r = state["cls"]()
        r.register  # noqa: B018  usable
        return id(r), tuple(sorted(r.formats))

    def construct_register(i):
        def body():
            r = state["cls"]()
            r.register(f"n{i}", *classes[i], f"d{i}")
            return id(r)

        return body

    def make():
        cls = fresh_registry_class()
        state.clear()
        state["cls"] = cls
        if not scenario.startswith("construct"):
            state["reg"] = cls()
        return {
            "same": lambda: [reg_body("alpha", 0), reg_body("alpha", 1)],
            "case": lambda: [reg_body("alpha", 0), reg_body("ALPHA", 1)],
            "different": lambda: [reg_body("alpha", 0), reg_body("beta", 1)],
            "register+get": lambda: [reg_body("alpha", 0), get_body("Alpha")],
            "register+list": lambda: [reg_body("alpha", 0), lambda: tuple(state["reg"].formats)],
            "construct": lambda: [construct_body, construct_body],
            "construct+register": lambda: [construct_register(0), construct_register(1)],
            "same3": lambda: [reg_body("alpha", 0), reg_body("alpha", 1), reg_body("alpha", 2)],
            "register2+get": lambda: [reg_body("alpha", 0), reg_body("alpha", 1), get_body("alpha")],
            "construct3": lambda: [construct_body, construct_body, construct_body],
        }[scenario]()

    def judge(results):
        for r in results:
            check(r is not None and r[0] == "ok", "thread failed: %r", r)
        vals = [r[1] for r in results]
        if scenario.startswith("construct"):
            reg = state["cls"]()
            if scenario == "construct+register":
                check(len({*vals, id(reg)}) == 1, "more than one instance")
                check_eq(sorted(reg.formats), ["n0", "n1"], "registrations of both threads")
            else:
                check(len({*(v[0] for v in vals), id(reg)}) == 1, "more than one instance")
            return
        reg = state["reg"]
        if scenario == "different":
            check_eq(vals, ["registered", "registered"], "both registrations succeed")
            check_eq(sorted(reg.formats), ["alpha", "beta"], "formats")
            return
        n = len([b for b in vals if b in ("registered", "refused")])
        check_eq(sorted(v for v in vals if v in ("registered", "refused")), ["refused"] * (n - 1) + ["registered"], "exactly one registration wins")
        winner = vals.index("registered")
        check_eq(reg.get("alpha").description, f"d{winner}", "the winner's codec is registered")
        if "get" in scenario:
            check(vals[-1] in ("unknown", f"d{winner}"), "lookup saw %r", vals[-1])
        if "list" in scenario:
            check(vals[-1] in ((), ("alpha",)), "listing saw %r", vals[-1])

    return sched.explore(make, judge, bound, granularity)
