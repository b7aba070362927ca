"""W02: DWARF expressions are shown operation by operation, with the right operands."""

import itertools
import os

from mc import core
from mc.core import check, check_eq, expect_raises, pattern

ID = "W02"
LEVEL = "model_checking"
RULE = (
    "Every opcode with every operand from boundary sets x byte order x address size, every ordered pair of opcodes (every triple of one "
    "opcode per operand signature in the thorough tier), all truncations of the last operation, unknown opcodes in between; histories "
    "of evaluations on several processors of different byte order and address size, alive at the same time."
)
ASSUMPTIONS = [
    "32-bit DWARF; call_ref and implicit_pointer references have the address size of the file",
    "vendor opcodes without operand definition in the library are single bytes",
    "positive operands are hexadecimal, others decimal (the notation of the library)",
]

# DWARF 5, table 7.9: name -> operands (u/s + size, a address, U uleb, S sleb, B uleb block, b u8 block)
TABLE = {
    0x03: ("addr", "a"), 0x06: ("deref", ""), 0x08: ("const1u", "u1"), 0x09: ("const1s", "s1"), 0x0A: ("const2u", "u2"),
    0x0B: ("const2s", "s2"), 0x0C: ("const4u", "u4"), 0x0D: ("const4s", "s4"), 0x0E: ("const8u", "u8"), 0x0F: ("const8s", "s8"),
    0x10: ("constu", "U"), 0x11: ("consts", "S"), 0x12: ("dup", ""), 0x13: ("drop", ""), 0x14: ("over", ""), 0x15: ("pick", "u1"),
    0x16: ("swap", ""), 0x17: ("rot", ""), 0x18: ("xderef", ""), 0x19: ("abs", ""), 0x1A: ("and_", ""), 0x1B: ("div", ""),
    0x1C: ("minus", ""), 0x1D: ("mod", ""), 0x1E: ("mul", ""), 0x1F: ("neg", ""), 0x20: ("not_", ""), 0x21: ("or_", ""),
    0x22: ("plus", ""), 0x23: ("plus_uconst", "U"), 0x24: ("shl", ""), 0x25: ("shr", ""), 0x26: ("shra", ""), 0x27: ("xor", ""),
    0x28: ("bra", "s2"), 0x29: ("eq", ""), 0x2A: ("ge", ""), 0x2B: ("gt", ""), 0x2C: ("le", ""), 0x2D: ("lt", ""), 0x2E: ("ne", ""),
    0x2F: ("skip", "s2"), 0x90: ("regx", "U"), 0x91: ("fbreg", "S"), 0x92: ("bregx", "U S"), 0x93: ("piece", "U"),
    0x94: ("deref_size", "u1"), 0x95: ("xderef_size", "u1"), 0x96: ("nop", ""), 0x97: ("push_object_address", ""), 0x98: ("call2", "u2"),
    0x99: ("call4", "u4"), 0x9A: ("call_ref", "a"), 0x9B: ("form_tls_address", ""), 0x9C: ("call_frame_cfa", ""),
    0x9D: ("bit_piece", "U U"), 0x9E: ("implicit_value", "B"), 0x9F: ("stack_value", ""), 0xA0: ("implicit_pointer", "a S"),
    0xA1: ("addrx", "U"), 0xA2: ("constx", "U"), 0xA3: ("entry_value", "U"), 0xA4: ("const_type", "U b"), 0xA5: ("regval_type", "U U"),
    0xA6: ("deref_type", "u1 U"), 0xA7: ("xderef_type", "u1 U"), 0xA8: ("convert", "U"), 0xA9: ("reinterpret", "U"),
    0xF0: ("GNU_uninit", ""), 0xF3: ("GNU_entry_value", "U"), 0xF4: ("GNU_const_type", "U b"),
    0xF5: ("GNU_regval_type", "U U"), 0xF6: ("GNU_deref_type", "u1 U"), 0xF7: ("GNU_convert", "U"), 0xF9: ("GNU_reinterpret", "U"),
}
TABLE.update({0x30 + i: (f"lit{i}", "") for i in range(32)})
TABLE.update({0x50 + i: (f"reg{i}", "") for i in range(32)})
TABLE.update({0x70 + i: (f"breg{i}", "S") for i in range(32)})
OPS = sorted(TABLE)
UNKNOWN = [0x00, 0x01, 0x02, 0x04, 0x05, 0x07, 0xAA, 0xC0, 0xDF]
CONFIGS = [("<", False), (">", False), ("<", True), (">", True)]
ONE_EACH = sorted({sig: op for op, (_, sig) in TABLE.items()}.values())


def spaces(tier):
    def single():
        for op in OPS:
            for c in range(4):
                yield [op, c]

    def pairs():
        for op in OPS:
            for c in (0, 3):
                yield [op, c]

    def triples():
        if tier == "quick":
            for a in ONE_EACH[::3]:
                yield [a, 1, True]
        else:
            for a in ONE_EACH:
                for c in range(4):
                    yield [a, c, False]

    def unknown():
        for op in OPS:
            yield [op]

    def nested():
        for c in range(4):
            yield [c]

    def chains():
        """Expressions of many operations."""
        for k in (10, 50, 127, 128, 129, 255, 256, 257, 1000, 3000):
            for c in range(4):
                for step in (1, 7, 31):
                    yield [k, c, step]

    def blobs():
        for op in (0x9E, 0xA4, 0xF4):
            for n in (63, 64, 127, 128, 254, 255, 256, 257, 1000, 4095, 4096, 16383, 16384, 65535, 65536, 100000):
                if op == 0x9E or n < 256:
                    for c in (0, 3):
                        yield [op, n, c]

    def deep():
        for k in (2, 3, 5, 20, 60):
            for c in range(4):
                yield [k, c]

    def histories():
        depth = 3 if tier == "quick" else 4
        for first in range(4):
            for second in range(4):
                yield [first, second, depth]

    return {"single": single, "pairs": pairs, "triples": triples, "unknown": unknown, "nested": nested, "chains": chains, "blobs": blobs, "deep": deep, "histories": histories}


def run_case(kind, p):
    return globals()["do_" + kind](*p)


PARSERS = {}


def parser(c):
    """Parser of a small file of the configuration (the processor takes byte order, class and sections from it)."""
    from mc import elfgen, elfs
    from objutils.elf import ElfParser

    key = os.getpid(), c
    if key not in PARSERS:
        end, b64 = CONFIGS[c]
        secs = [dict(name=n, type=1, flags=0, addr=0, data=d) for n, d in ((".debug_abbrev", b"\0"), (".debug_info", bytes(16)))]
        blob, _ = elfgen.build(2 if b64 else 1, 1 if end == "<" else 2, secs)
        with elfs.scratch() as d:
            path = os.path.join(d, "a.elf")
            elfs.write(path, blob)
            PARSERS[key] = ElfParser(path)  # The file stays readable, the data base too, as nothing is written.
            PARSERS[key].debug_sections()
    return PARSERS[key]


def processor(c):
    from objutils.dwarf import DwarfProcessor

    return DwarfProcessor(parser(c))


def leb(v, signed):
    out = []
    while True:
        b = v & 0x7F
        v >>= 7
        if signed and ((v == 0 and not b & 0x40) or (v == -1 and b & 0x40)) or not signed and v == 0:
            out.append(b)
            return bytes(out)
        out.append(b | 0x80)


def operands(kind, c):
    """[(bytes, shown)]"""
    end, b64 = CONFIGS[c]
    order = "little" if end == "<" else "big"
    if kind == "a":
        kind = "u8" if b64 else "u4"
    if kind == "U":
        vals = [0, 1, 63, 64, 127, 128, 300, 16383, 16384, 1 << 32, (1 << 64) - 1]
        return [(leb(v, False), num(v)) for v in vals] + [(b"\x85\x80\x00", num(5))]
    if kind == "S":
        vals = [0, 1, -1, 63, 64, -64, -65, 127, 128, -128, -129, 8191, 8192, -8192, -8193, 1 << 31, -(1 << 31), -(1 << 63)]
        return [(leb(v, True), num(v)) for v in vals] + [(b"\xff\xff\x7f", num(-1))]
    if kind == "B":
        return [(leb(n, False) + pattern(n, 3), "0x" + pattern(n, 3).hex()) for n in (0, 1, 4, 16, 127, 128, 200)]
    if kind == "b":
        return [(bytes([n]) + pattern(n, 5), "0x" + pattern(n, 5).hex()) for n in (0, 1, 2, 8, 128, 255)]
    n = int(kind[1])
    if kind[0] == "u":
        vals = {0, 1, (1 << 8 * n) - 1, 1 << 8 * n - 1, (1 << 8 * n - 1) - 1, int.from_bytes(bytes(range(1, n + 1)), "little")}
        vals |= {0x80 << 8 * i for i in range(n)}
    else:
        vals = {0, 1, -1, (1 << 8 * n - 1) - 1, -(1 << 8 * n - 1), -2, int.from_bytes(bytes(range(1, n + 1)), "little")}
        vals |= {-(0x80 << 8 * i) for i in range(n)}
    return [(v.to_bytes(n, order, signed=kind[0] == "s"), num(v)) for v in sorted(vals)]


def num(v):
    if v > 0:
        h = format(v, "x")
        return "0x" + "0" * (8 - len(h)) + h
    return str(v)


def instances(op, c, few=False):
    name, sig = TABLE[op]
    lists = [operands(k, c) for k in sig.split()]
    if few:
        lists = [[x[len(x) // 2], x[-1]] for x in lists]
    for combo in itertools.product(*lists):
        yield bytes([op]) + b"".join(b for b, _ in combo), f"{name}({', '.join(s for _, s in combo)})"


def do_single(op, c):
    p = processor(c)
    check_eq(p.dwarf_expression(b""), "", "empty expression")
    out = []
    for data, want in instances(op, c):
        check_eq(p.dwarf_expression(data), want, f"expression {data[:20].hex()}")
        out.append(want)
        for cut in {len(data) - 1, 1} if len(data) > 1 else ():
            short = data[:cut]
            expect_raises((Exception,), p.dwarf_expression, short, _what=f"truncated expression {short[:20].hex()}")
        check_eq(p.dwarf_expression(data), want, f"expression {data[:20].hex()} after a truncated one")
    return hash(tuple(out))


def do_pairs(op, c):
    p = processor(c)
    n = 0
    for data, want in instances(op, c, True):
        for op2 in OPS:
            for d2, w2 in instances(op2, c, True):
                check_eq(p.dwarf_expression(data + d2), want + "; " + w2, f"expression {(data + d2)[:30].hex()}")
                n += 1
                break
    core.STATS.transitions += n
    return n


def do_triples(a, c, few):
    p = processor(c)
    n = 0
    for combo in itertools.product([a], ONE_EACH, ONE_EACH):
        picks = [list(instances(op, c, True)) for op in combo]
        for k in range(1 if few else 2):
            seq = [x[min(k, len(x) - 1)] for x in picks]
            data = b"".join(d for d, _ in seq)
            check_eq(p.dwarf_expression(data), "; ".join(w for _, w in seq), f"expression {data[:30].hex()}")
            n += 1
    core.STATS.transitions += n
    return n


def do_unknown(op):
    """Opcodes without meaning are skipped, the rest is still shown."""
    p = processor(0)
    data, want = next(iter(instances(op, 0, True)))
    for u in UNKNOWN:
        check(p.dwarf_expression(bytes([u])).find("(") < 0, "unknown opcode %d shown as an operation", u)
        got = p.dwarf_expression(bytes([u]) + data)
        check_eq(got.split("; ")[-len(want.split("; ")) :], want.split("; "), f"expression after unknown opcode {u}")
        got = p.dwarf_expression(data + bytes([u]))
        check_eq(got.split("; ")[0], want.split("; ")[0], f"expression before unknown opcode {u}")
    return want


def do_nested(c):
    """entry_value: length of the nested expression, then its operations."""
    p = processor(c)
    n = 0
    for outer in (0xA3, 0xF3):
        for op in OPS:
            for d, w in instances(op, c, True):
                data = bytes([outer]) + leb(len(d), False) + d + b"\x9f"
                check_eq(p.dwarf_expression(data), f"{TABLE[outer][0]}({num(len(d))}); {w}; stack_value()", f"expression {data[:30].hex()}")
                n += 1
    return n


def do_chains(k, c, step):
    p = processor(c)
    data, want = b"", []
    for i in range(k):
        op = OPS[(i * step + c) % len(OPS)]
        if TABLE[op][0].endswith("entry_value"):
            op = 0x31
        alts = list(itertools.islice(instances(op, c, True), 4))
        d, w = alts[i % len(alts)]
        data += d
        want.append(w)
    check_eq(p.dwarf_expression(data), "; ".join(want), f"expression of {k} operations")
    check_eq(p.dwarf_expression(data + data[:0] + b"\x96"), "; ".join([*want, "nop()"]), f"expression of {k + 1} operations")
    return hash(data)


def do_blobs(op, n, c):
    p = processor(c)
    body = pattern(n, 9)
    if op == 0x9E:
        data, want = leb(n, False) + body, f"implicit_value(0x{body.hex()})"
    else:
        data, want = b"\x05" + bytes([n]) + body, f"{TABLE[op][0]}({num(5)}, 0x{body.hex()})"
    check_eq(p.dwarf_expression(bytes([op]) + data + b"\x9f"), want + "; stack_value()", f"{TABLE[op][0]} of {n} bytes")
    expect_raises((Exception,), p.dwarf_expression, bytes([op]) + data[:-1], _what="truncated block")
    return n


def do_deep(k, c):
    p = processor(c)
    data, want = b"\x55", ["reg5()"]
    for i in range(k):
        outer = 0xA3 if i & 1 else 0xF3
        want.insert(0, f"{TABLE[outer][0]}({num(len(data))})")
        data = bytes([outer]) + leb(len(data), False) + data
    check_eq(p.dwarf_expression(data + b"\x9f"), "; ".join([*want, "stack_value()"]), f"{k} nested entry values")
    return len(data)


def do_histories(first, second, depth):
    """Several processors alive at once; each interprets bytes according to its own file only."""
    exprs = [
        bytes([0x03, 1, 2, 3, 4, 5, 6, 7, 8]),
        bytes([0x0A, 1, 2]),
        bytes([0x08]),  # truncated
        bytes([0x91, 0x70, 0x23, 0x08]),
        bytes([0x34]),
        bytes([0x0F, 0xF0, 1, 2, 3, 4, 5, 6, 0x80]),
    ]

    def expected(c, e):
        end, b64 = CONFIGS[c]
        order = "little" if end == "<" else "big"
        if e == 0:
            if b64:
                return f"addr({num(int.from_bytes(exprs[0][1:9], order))})"
            # 05 and 07 are unknown, 06 is deref, 08 lacks its operand
            return None
        if e == 1:
            return f"const2u({num(int.from_bytes(exprs[1][1:3], order))})"
        if e == 2:
            return None
        if e == 3:
            return f"fbreg(-16); plus_uconst({num(8)})"
        if e == 4:
            return "lit4()"
        return f"const8s({num(int.from_bytes(exprs[5][1:9], order, signed=True))})"

    configs = [first, second]

    def make():
        return [[processor(c) for c in configs], ()]

    def events(pair):
        return [(k, e) for e in range(len(exprs)) for k in range(2)] + ["new"]

    def step(pair, ev):
        procs, log = pair
        if ev == "new":
            procs.append(processor((configs[0] + len(procs)) % 4))
            pair[1] = log + ("new",)
            return
        k, e = ev
        want = expected(configs[k], e)
        if want is None:
            expect_raises((Exception,), procs[k].dwarf_expression, exprs[e], _what=f"expression {exprs[e].hex()}")
        else:
            check_eq(procs[k].dwarf_expression(exprs[e]), want, f"expression {exprs[e].hex()} of processor {k}")
        pair[1] = log + (ev,)

    return core.bfs(make, events, step, lambda p: p[1], depth - 1 if depth > 3 else 2)
