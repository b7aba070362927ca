"""W03: the debugging information entries are reproduced as the tree, with the attributes, of the file."""

import contextlib
import itertools

from mc import core, elfgen, elfs
from mc.core import check, check_eq, expect_raises, pattern

ID = "W03"
LEVEL = "exploration"
RULE = (
    "All ordered trees of up to 6 (8) entries x leaf encodings x padding, sequences of up to 3 units of every version and unit type, "
    "every attribute form x boundary values x version x address size x byte order, units of all pairs of versions and address sizes, every standard tag and attribute number, "
    "chains and combs up to depth 100 (200), up to 700 (66000) siblings, 260 (3000) units, 257 (1025) abbreviations, 257 attributes, strings "
    "and blocks up to 70000 (300000) bytes, offsets up to 2^17 (2^24); abbreviation tables in all orders, shared, separate and with conflicting codes; the result is compared with the generated tree."
)
CASE_TIMEOUT = 300
ASSUMPTIONS = [
    "32-bit DWARF, well-formed sections",
    "forms the library does not support (strx, addrx, data16, indirect, supplementary files, 64-bit) are outside",
    "ref_addr has the size of an address in DWARF 2 and of an offset in later versions",
]

TAGS = {
    1: "array_type", 2: "class_type", 3: "entry_point", 4: "enumeration_type", 5: "formal_parameter", 8: "imported_declaration", 0xA: "label",
    0xB: "lexical_block", 0xD: "member", 0xF: "pointer_type", 0x10: "reference_type", 0x11: "compile_unit", 0x12: "string_type",
    0x13: "structure_type", 0x15: "subroutine_type", 0x16: "typedef", 0x17: "union_type", 0x18: "unspecified_parameters", 0x19: "variant",
    0x1A: "common_block", 0x1B: "common_inclusion", 0x1C: "inheritance", 0x1D: "inlined_subroutine", 0x1E: "module",
    0x1F: "ptr_to_member_type", 0x20: "set_type", 0x21: "subrange_type", 0x22: "with_stmt", 0x23: "access_declaration", 0x24: "base_type",
    0x25: "catch_block", 0x26: "const_type", 0x27: "constant", 0x28: "enumerator", 0x29: "file_type", 0x2A: "friend", 0x2B: "namelist",
    0x2C: "namelist_item", 0x2D: "packed_type", 0x2E: "subprogram", 0x2F: "template_type_param", 0x30: "template_value_param",
    0x31: "thrown_type", 0x32: "try_block", 0x33: "variant_part", 0x34: "variable", 0x35: "volatile_type", 0x36: "dwarf_procedure",
    0x37: "restrict_type", 0x38: "interface_type", 0x39: "namespace", 0x3A: "imported_module", 0x3B: "unspecified_type",
    0x3C: "partial_unit", 0x3D: "imported_unit", 0x3F: "condition", 0x40: "shared_type", 0x41: "type_unit", 0x42: "rvalue_reference_type",
    0x43: "template_alias", 0x47: "atomic_type", 0x4109: "GNU_call_site", 0x410A: "GNU_call_site_parameter",
    0x4106: "GNU_template_template_param", 0x4107: "GNU_template_parameter_pack", 0x4108: "GNU_formal_parameter_pack",
}
UNKNOWN_TAGS = [0x06, 0x0C, 0x5555, 0x4321]
ATTRS = {
    1: "sibling", 3: "name", 0xB: "byte_size", 0xC: "bit_offset", 0xD: "bit_size", 0x10: "stmt_list", 0x11: "low_pc", 0x12: "high_pc",
    0x15: "discr", 0x16: "discr_value", 0x18: "import_", 0x19: "string_length", 0x1A: "common_reference", 0x1B: "comp_dir",
    0x1C: "const_value", 0x1D: "containing_type", 0x1E: "default_value", 0x21: "is_optional", 0x22: "lower_bound", 0x25: "producer",
    0x27: "prototyped", 0x2C: "start_scope", 0x2E: "bit_stride", 0x2F: "upper_bound", 0x31: "abstract_origin", 0x33: "address_class",
    0x34: "artificial", 0x35: "base_types", 0x37: "count", 0x39: "decl_column", 0x3A: "decl_file", 0x3B: "decl_line", 0x3C: "declaration",
    0x3F: "external", 0x41: "friend", 0x43: "macro_info", 0x44: "namelist_item", 0x45: "priority", 0x46: "segment", 0x47: "specification",
    0x48: "static_link", 0x49: "type", 0x4A: "use_location", 0x4B: "variable_parameter", 0x4E: "allocated", 0x4F: "associated",
    0x50: "data_location", 0x51: "byte_stride", 0x52: "entry_pc", 0x53: "use_UTF8", 0x54: "extension", 0x55: "ranges", 0x56: "trampoline",
    0x57: "call_column", 0x58: "call_file", 0x59: "call_line", 0x5A: "description", 0x5B: "binary_scale", 0x5C: "decimal_scale",
    0x5D: "small", 0x5F: "digit_count", 0x60: "picture_string", 0x61: "mutable", 0x62: "threads_scaled", 0x63: "explicit",
    0x64: "object_pointer", 0x66: "elemental", 0x67: "pure", 0x68: "recursive", 0x69: "signature", 0x6A: "main_subprogram",
    0x6B: "data_bit_offset", 0x6C: "const_expr", 0x6D: "enum_class", 0x6E: "linkage_name", 0x6F: "string_length_bit_size",
    0x70: "string_length_byte_size", 0x71: "rank", 0x72: "str_offsets_base", 0x73: "addr_base", 0x74: "rnglists_base", 0x76: "dwo_name",
    0x77: "reference", 0x78: "rvalue_reference", 0x79: "macros", 0x7A: "call_all_calls", 0x7B: "call_all_source_calls",
    0x7C: "call_all_tail_calls", 0x7D: "call_return_pc", 0x7E: "call_value", 0x7F: "call_origin", 0x80: "call_parameter", 0x81: "call_pc",
    0x82: "call_tail_call", 0x83: "call_target", 0x84: "call_target_clobbered", 0x85: "call_data_location", 0x86: "call_data_value",
    0x87: "noreturn", 0x88: "alignment", 0x89: "export_symbols", 0x8A: "deleted", 0x8C: "loclists_base", 0x2117: "GNU_all_call_sites",
    0x2116: "GNU_all_tail_call_sites", 0x2007: "MIPS_linkage_name",
}
LOCATION = {0x02: "location", 0x40: "frame_base", 0x38: "data_member_location", 0x4D: "vtable_elem_location", 0x2A: "return_addr",
            0x2111: "GNU_call_site_value", 0x2113: "GNU_call_site_target"}
ENCODED = {
    0x3E: ("encoding", {1: "address", 2: "boolean", 3: "complex_float", 4: "float", 5: "signed", 6: "signed_char", 7: "unsigned",
                        8: "unsigned_char", 9: "imaginary_float", 0xA: "packed_decimal", 0xB: "numeric_string", 0xC: "edited",
                        0xD: "signed_fixed", 0xE: "unsigned_fixed", 0xF: "decimal_float", 0x10: "UTF"}),
    0x5E: ("decimal_sign", {1: "unsigned", 2: "leading_overpunch", 3: "trailing_overpunch", 4: "leading_separate", 5: "trailing_separate"}),
    0x65: ("endianity", {0: "default", 1: "big", 2: "little"}),
    0x32: ("accessibility", {1: "public", 2: "protected", 3: "private"}),
    0x17: ("visibility", {1: "local", 2: "exported", 3: "qualified"}),
    0x4C: ("virtuality", {0: "none", 1: "virtual", 2: "pure_virtual"}),
    0x13: ("language", {1: "C89", 2: "C", 3: "Ada83", 4: "C_plus_plus", 5: "Cobol74", 6: "Cobol85", 7: "Fortran77", 8: "Fortran90",
                        9: "Pascal83", 0xA: "Modula2", 0xB: "Java", 0xC: "C99", 0xD: "Ada95", 0xE: "Fortran95", 0xF: "PLI",
                        0x10: "ObjC", 0x11: "ObjC_plus_plus", 0x12: "UPC", 0x13: "D", 0x14: "Python", 0x1A: "C_plus_plus_11",
                        0x1C: "Rust", 0x1D: "C11", 0x21: "C_plus_plus_14", 0x8001: "Mips_Assembler"}),
    0x42: ("identifier_case", {0: "case_sensitive", 1: "up_case", 2: "down_case", 3: "case_insensitive"}),
    0x36: ("calling_convention", {1: "normal", 2: "program", 3: "nocall"}),
    0x20: ("inline", {0: "not_inlined", 1: "inlined", 2: "declared_not_inlined", 3: "declared_inlined"}),
    0x09: ("ordering", {0: "row_major", 1: "col_major"}),
    0x8B: ("defaulted", {0: "DW_DEFAULTED_no", 1: "DW_DEFAULTED_in_class", 2: "DW_DEFAULTED_out_of_class"}),
}
FORMS = {
    "addr": 1, "block2": 3, "block4": 4, "data2": 5, "data4": 6, "data8": 7, "string": 8, "block": 9, "block1": 0xA, "data1": 0xB,
    "flag": 0xC, "sdata": 0xD, "strp": 0xE, "udata": 0xF, "ref_addr": 0x10, "ref1": 0x11, "ref2": 0x12, "ref4": 0x13, "ref8": 0x14,
    "ref_udata": 0x15, "sec_offset": 0x17, "exprloc": 0x18, "flag_present": 0x19, "line_strp": 0x1F, "ref_sig8": 0x20, "implicit_const": 0x21,
}
STR = b"\0int\0char\0a_rather_long_identifier\0\xc3\xa4\xe2\x82\xac\0"
LINE_STR = b"main.c\0/usr/src\0x\0"
ENV = [("<", 4), (">", 4), ("<", 8), (">", 8), ("<", 2), (">", 1)]


def spaces(tier):
    deep = 6 if tier == "quick" else 8

    def shapes():
        for n in range(1, deep + 1):
            for t, tree in enumerate(trees(n)):
                for leaf in range(3):
                    yield [tree, leaf, (t + leaf) % 4]

    def leaves():
        for n in range(1, 5 if tier == "quick" else 6):
            for tree in trees(n):
                for mask in range(1 << tree_leaves(tree)):
                    yield [tree, mask]

    def units():
        kinds = [(2, 1), (3, 1), (4, 1), (5, 1), (5, 2), (5, 3), (5, 4), (5, 5), (5, 6)]
        for n in (1, 2, 3):
            for combo in itertools.product(range(len(kinds)), repeat=n):
                if n == 3 and tier == "quick" and (combo[0] + combo[1] + combo[2]) % 3:
                    continue
                yield [[kinds[c] for c in combo], sum(combo) % 4, combo[0] % 3]

    def unitshapes():
        ts = [t for n in (1, 2, 3) for t in trees(n)]
        for a, b in itertools.product(range(len(ts)), repeat=2):
            for pad in range(4):
                for e in (0, 3):
                    yield [ts[a], ts[b], pad, e]

    def forms():
        for form in FORMS:
            for e in range(len(ENV)):
                for version in (2, 3, 4, 5):
                    yield [form, e, version]

    def formpairs():
        for a, b in itertools.product(FORMS, repeat=2):
            yield [a, b, 0 if tier == "quick" else 1]

    def mixed():
        for n in range(1, 3 if tier == "quick" else 4):
            for versions in itertools.product((2, 3, 4, 5), repeat=n):
                for sizes in itertools.product((1, 2, 4, 8), repeat=n):
                    if n == 3 and sum(versions) % 3:
                        continue
                    yield [list(versions), list(sizes), sum(versions) % 2]

    def tags():
        for t in [*TAGS, *UNKNOWN_TAGS]:
            yield [t]

    def attrs():
        for a in [*ATTRS, *LOCATION, *ENCODED, 0x07, 0x75, 0x1F, 0x2999, 0x3ABC]:
            yield [a]

    def abbrevs():
        for n in range(1, 5 if tier == "quick" else 6):
            for perm in itertools.permutations(range(n)):
                for codes in ((1, 2, 3, 4, 5), (127, 128, 1, 16384, 300)):
                    for layout in range(4):
                        yield [list(perm), list(codes[:n]), layout]

    def repeat():
        for a in range(4):
            for b in range(4):
                yield [a, b]

    def elffile():
        for cls in (1, 2):
            for e in (1, 2):
                for order in range(3):
                    yield [cls, e, order]

    def large():
        """Sizes far beyond the other spaces: depth, siblings, units, abbreviations, attributes, offsets, lengths."""
        full = tier != "quick"
        for n in (*range(7, 20), 31, 32, 33, 63, 64, 65, 100, *((127, 128, 129, 200) if full else ())):
            for what in ("chain", "comb", "comb before"):
                yield [what, n]
        for n in (15, 16, 17, 100, 255, 256, 257, 700, 1030, *((2050, 5000, 20000, 66000) if full else ())):
            yield ["siblings", n]
        for n in (4, 5, 8, 9, 16, 17, 33, 130, 260, *((1000, 3000) if full else ())):
            for version in (4, 5):
                yield ["units", [n, version]]
        for n in (127, 128, 129, 255, 256, 257, *((600, 1025) if full else ())):
            yield ["abbreviations", n]
        for n in (9, 16, 17, 32, 33, 64, 65, 100, 129, 257):
            yield ["attributes", n]
        for n in (127, 128, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 16383, 16384, 65535, 65536, 70000, *((300000,) if full else ())):
            for form in ("string", "block", "block4", "exprloc", "strp", "line_strp"):
                yield ["length", [n, form]]
        for n in (0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x1FFFF, *((0xFFFFFF, 0x1000001) if full else ())):
            for e in range(4):
                yield ["far", [n, e]]

    return {"large": large, "shapes": shapes, "leaves": leaves, "units": units, "unitshapes": unitshapes, "forms": forms, "formpairs": formpairs, "mixed": mixed, "tags": tags,
            "attrs": attrs, "abbrevs": abbrevs, "repeat": repeat, "elffile": elffile}


def run_case(kind, p):
    return globals()["do_" + kind](*p)


# ---------------------------------------------------------------------------------------------------------
# generator


def trees(n):
    """Ordered trees of n nodes, a tree is the list of its children."""
    if n == 1:
        return [[]]
    out = []
    for first in range(1, n):
        for a in trees(first):
            for b in trees(n - first):
                out.append([a, *b])
    return out


def tree_leaves(t):
    return 1 if not t else sum(tree_leaves(c) for c in t)


def uleb(v):
    out = []
    while True:
        v, b = divmod(v, 128)
        out.append(b + (128 if v else 0))
        if not v:
            return bytes(out)


def sleb(v):
    n = 1
    while not -(1 << 7 * n - 1) <= v < 1 << 7 * n - 1:
        n += 1
    v &= (1 << 7 * n) - 1
    return bytes((v >> 7 * i & 0x7F) | (0x80 if i < n - 1 else 0) for i in range(n))


class Die:
    """tag, attributes [(number, form, value)], children; `flag` forces the children flag for a leaf."""

    def __init__(self, tag, attrs=(), children=(), flag=None):
        self.tag, self.attrs, self.children = tag, list(attrs), list(children)
        self.flag = bool(children) if flag is None else flag

    def key(self):
        return (self.tag, self.flag, tuple((a, f, v if f == "implicit_const" else None) for a, f, v in self.attrs))


class Table:
    """An abbreviation table: key -> code, in the order of `entries`."""

    def __init__(self, keys=(), codes=None):
        self.codes = {}
        for i, k in enumerate(keys):
            self.codes[k] = codes[i] if codes else i + 1

    def code(self, die):
        return self.codes.setdefault(die.key(), len(self.codes) + 1)

    def build(self):
        out = b""
        for (tag, flag, attrs), code in self.codes.items():
            out += uleb(code) + uleb(tag) + bytes([flag])
            for a, f, v in attrs:
                out += uleb(a) + uleb(FORMS[f])
                if f == "implicit_const":
                    out += sleb(v)
            out += b"\0\0"
        return out + b"\0"


def encode(form, v, order, addr, version=4):
    i = lambda n: v.to_bytes(n, order)  # noqa: E731
    return {
        "addr": lambda: i(addr), "data1": lambda: i(1), "data2": lambda: i(2), "data4": lambda: i(4), "data8": lambda: i(8),
        "block1": lambda: bytes([len(v)]) + v, "block2": lambda: len(v).to_bytes(2, order) + v, "block4": lambda: len(v).to_bytes(4, order) + v,
        "block": lambda: uleb(len(v)) + v, "exprloc": lambda: uleb(len(v)) + v, "string": lambda: v.encode() + b"\0", "flag": lambda: i(1),
        "sdata": lambda: sleb(v), "udata": lambda: uleb(v), "strp": lambda: v.to_bytes(4, order), "line_strp": lambda: v.to_bytes(4, order),
        "ref_addr": lambda: i(addr if version == 2 else 4), "ref1": lambda: i(1), "ref2": lambda: i(2), "ref4": lambda: i(4), "ref8": lambda: i(8),
        "ref_udata": lambda: uleb(v), "sec_offset": lambda: i(4), "flag_present": lambda: b"", "ref_sig8": lambda: i(8),
        "implicit_const": lambda: b"",
    }[form]()


class Info:
    """Builds .debug_info/.debug_abbrev and the expected tree."""

    def __init__(self, endian="<", addr=4):
        self.order = "little" if endian == "<" else "big"
        self.endian, self.addr = endian, addr
        self.info = b""
        self.abbrev = b""
        self.tables = []
        self.expect = []
        self.map = {}
        self.strings = {"strp": STR, "line_strp": LINE_STR}

    def table(self, table, pad=b""):
        """Tables are complete once the units are added: fix their order and offsets here."""
        self.tables.append((table, pad))
        return len(self.tables) - 1

    def prepare(self, units):
        """units: dicts version, kind, table (index), root, padding"""
        for u in units:
            self.collect(self.tables[u["table"]][0], u["root"])
        offsets = []
        for table, pad in self.tables:
            self.abbrev += pad
            offsets.append(len(self.abbrev))
            self.abbrev += table.build()
        for u in units:
            self.unit(u, self.tables[u["table"]][0], offsets[u["table"]])
        return self

    def collect(self, table, die):
        table.code(die)
        for c in die.children:
            self.collect(table, c)

    def unit(self, u, table, offset):
        start = len(self.info)
        version, kind = u.get("version", 4), u.get("kind", 1)
        off = offset.to_bytes(4, self.order)
        body = version.to_bytes(2, self.order)
        addr = u.get("addr", self.addr)
        if version < 5:
            body += off + bytes([addr])
        else:
            body += bytes([kind, addr]) + off
            if kind in (4, 5):
                body += bytes(range(0xE0, 0xE8))
            if kind in (2, 6):
                body += bytes(range(0xD0, 0xD8)) + (0x1D).to_bytes(4, self.order)
        base = start + 4

        def emit(die):
            nonlocal body
            pos = base + len(body)
            body += uleb(table.code(die))
            node = [die.tag, [], [], pos]
            for a, f, v in die.attrs:
                body += encode(f, v, self.order, addr, version)
                node[1].append((a, f, self.value(a, f, v, start), v))
            for c in die.children:
                node[2].append(emit(c))
            if die.flag:
                body += b"\0"
            self.map[pos] = node
            return node

        self.expect.append(emit(u["root"]))
        body += b"\0" * u.get("padding", 0)
        self.info += len(body).to_bytes(4, self.order) + body

    def value(self, a, form, v, start):
        if form in ("strp", "line_strp"):
            blob = self.strings.get(form, b"")
            return blob[v : blob.index(b"\0", v)].decode()
        if form == "flag_present":
            return 1
        if form in ("ref1", "ref2", "ref4", "ref8", "ref_udata") and a not in LOCATION and a not in ENCODED:
            return v + start
        return v


def sections(info):
    return {".debug_abbrev": info.abbrev, ".debug_info": info.info, ".debug_line_str": info.strings.get("line_strp", LINE_STR), ".debug_str": info.strings.get("strp", STR)}


@contextlib.contextmanager
def processor(info):
    from objutils.dwarf import DwarfProcessor

    secs = [dict(name=n, type=1, flags=0, addr=0, data=d) for n, d in sections(info).items()]
    blob, _ = elfgen.build(2 if info.addr == 8 else 1, 1 if info.endian == "<" else 2, secs)
    with elfs.parsed(blob) as ep:
        yield DwarfProcessor(ep), ep


def tag_name(t):
    return TAGS.get(t)


def verify(info, result, exprs=None):
    check_eq(len(result.die_entries), len(info.expect), "number of units")
    seen = {}
    for got, want in zip(result.die_entries, info.expect):
        compare(got, want, exprs, "")
        index(got, seen)
    check_eq(sorted(result.die_map), sorted(info.map), "offsets in the map")
    for pos, die in result.die_map.items():
        check(id(die) in seen, "entry at 0x%x of the map is not in the tree", pos)
        compare(die, info.map[pos], exprs, "map ")
    check_eq(len({id(d) for d in result.die_map.values()}), len(seen), "map and tree have the same entries")


def index(die, seen):
    seen[id(die)] = die
    for c in die.children:
        index(c, seen)


def compare(got, want, exprs, where):
    tag, attrs, children, pos = want
    where = f"{where}entry at 0x{pos:x}"
    if tag in TAGS:
        check_eq(got.name, TAGS[tag], f"{where} tag")
    else:
        check(f"{tag:04x}" in got.name, "%s: tag 0x%x named %r", where, tag, got.name)
    check_eq(len(got.attributes), len(attrs), f"{where}: number of attributes")
    for (name, value), (a, form, raw, orig) in zip(got.attributes, attrs):
        if a in ATTRS or a in LOCATION or a in ENCODED:
            check_eq(name, ATTRS.get(a) or LOCATION.get(a) or ENCODED[a][0], f"{where}: attribute name")
        else:
            check(f"{a:04x}" in name, "%s: attribute 0x%x named %r", where, a, name)
        check_eq(value.raw_value, raw, f"{where}: {name} ({form})")
        check_eq(type(value.raw_value), type(raw), f"{where}: type of {name}")
        if form == "implicit_const":
            continue
        shown = value.display_value
        if a in LOCATION:
            if isinstance(raw, bytes):
                if exprs and raw in exprs:
                    check_eq(shown, exprs[raw], f"{where}: {name} shown")
            elif isinstance(raw, int) and raw >= 0:
                check_eq(shown, f"0x{raw:08x}", f"{where}: {name} shown")
        elif a in ENCODED and isinstance(raw, int):
            if raw in ENCODED[a][1]:
                check(shown.split()[0] == ENCODED[a][1][raw], "%s: %s %d shown as %r", where, name, raw, shown)
            if raw >= 0:
                check(f"0x{raw:08x}" in shown, "%s: %s %d shown as %r", where, name, raw, shown)
        elif form.startswith("ref") and form != "ref_sig8":
            check_eq(shown, f"0x{raw:08x}", f"{where}: {name} shown")
        else:
            check_eq(shown, raw, f"{where}: {name} shown")
    check_eq([tag_or(c) for c in got.children], [TAGS.get(c[0], c[0]) for c in children], f"{where}: children")
    for g, w in zip(got.children, children):
        compare(g, w, exprs, "")


def tag_or(die):
    for t in UNKNOWN_TAGS:
        if f"{t:04x}" in die.name:
            return t
    return die.name


def shape(tree, flagger, counter, tags=(0x11, 0x2E, 0x34, 0x0B, 0x24)):
    i = counter[0]
    counter[0] += 1
    kids = [shape(c, flagger, counter, tags) for c in tree]
    flag = True if kids else flagger()
    tag = tags[0] if i == 0 else tags[1 + i % (len(tags) - 1)]
    return Die(tag, [(0xB, "udata", i * 100 + 7)] if i % 3 else [], kids, flag)


def run(info, exprs=None):
    with processor(info) as (p, ep):
        result = p.do_dbg_info()
        verify(info, result, exprs)
        stored(ep, result)
    return result


def stored(ep, result):
    """The entries in the data base are those of the result, with the values as text."""
    from objutils.elf import model

    def text(v):
        return str(v) if isinstance(v, int) else v

    ep.session.expire_all()
    attrs = {}
    for a in ep.session.query(model.DIEAttribute).order_by(model.DIEAttribute.rid).all():
        attrs.setdefault(a.entry_id, []).append((a.name, a.raw_value, a.display_value))
    got = [(d.tag, attrs.get(d.rid, [])) for d in ep.session.query(model.DebugInformationEntry).order_by(model.DebugInformationEntry.rid).all()]
    want = [(d.name, [(n, text(v.raw_value), text(v.display_value)) for n, v in d.attributes]) for _, d in sorted(result.die_map.items())]
    check_eq(got, want, "entries in the data base")


# ---------------------------------------------------------------------------------------------------------


def do_shapes(tree, leaf, e):
    flips = itertools.count()
    flagger = [lambda: False, lambda: True, lambda: next(flips) % 2 == 0][leaf]
    info = Info(*ENV[e])
    t = info.table(Table())
    root = shape(tree, flagger, [0])
    info.prepare([dict(table=t, root=root, version=4)])
    r = run(info)
    return repr(r.die_entries)


def do_leaves(tree, mask):
    bits = iter(range(100))
    info = Info()
    t = info.table(Table())
    info.prepare([dict(table=t, root=shape(tree, lambda: bool(mask >> next(bits) & 1), [0]), version=5)])
    return repr(run(info).die_entries)


def do_large(what, n):
    return globals()["large_" + what.split()[0]](*(n if isinstance(n, list) else [n, what] if " " in what or what == "comb" else [n]))


def one_unit(root, version=4, e=0, strings=None):
    info = Info(*ENV[e])
    if strings:
        info.strings = {**info.strings, **strings}
    t = info.table(Table())
    info.prepare([dict(table=t, root=root, version=version), dict(table=t, root=small(1), version=4)])
    run(info)
    return len(info.info), hash(info.info)


def large_chain(n):
    die = Die(0x34, [(0xB, "udata", n)])
    for i in range(n - 1):
        die = Die(0x0B if i < n - 2 else 0x11, [(0xB, "udata", i)], [die])
    return one_unit(die)


def large_comb(n, what):
    """A sibling behind (or before) the subtree at every level."""
    die = Die(0x34, [(0xB, "udata", n)])
    for i in range(n - 1):
        side = Die(0x34, [(0xB, "udata", 1000 + i)], [Die(0x0D)] if i % 3 == 0 else [], True if i % 2 else None)
        die = Die(0x0B if i < n - 2 else 0x11, [(0xB, "udata", i)], [die, side] if what == "comb" else [side, die])
    return one_unit(die)


def large_siblings(n):
    return one_unit(Die(0x11, [], [Die(0x34 if i % 7 else 0x24, [(0xB, "udata", i)], [Die(0x0D)] if i % 5 == 0 else []) for i in range(n)]))


def large_units(n, version):
    info = Info(*ENV[n % 4])
    tabs = [info.table(Table()) for _ in range(n // 2 + 1)]
    info.prepare([dict(table=tabs[i // 2], root=small(i % 120), version=version if i % 3 else 3, padding=i % 3) for i in range(n)])
    run(info)
    return len(info.info)


def large_abbreviations(n):
    kinds = [Die(0x34, [(a, "udata", i)], flag=flag) for i, (a, flag) in enumerate(itertools.product([*ATTRS], (False, True)))]
    kinds += [Die(0x24, [(a, "data1", 1), (b, "data1", 2)]) for a, b in itertools.product([*ATTRS], repeat=2)]
    while len(kinds) < n:
        kinds += [Die(0x0D, [(0x1C, "implicit_const", len(kinds) + k)]) for k in range(1000)]
    kinds = kinds[: n - 1]
    return one_unit(Die(0x11, [], kinds + kinds[::-17]))


def large_attributes(n):
    names = [*ATTRS]
    attrs = [(names[i % len(names)], ("udata", "data1", "string", "sdata")[i % 4], f"s{i}" if i % 4 == 2 else i % 60) for i in range(n)]
    return one_unit(Die(0x11, attrs, [Die(0x34, attrs[::-1]), Die(0x34, attrs[:1])]))


def large_length(n, form):
    if form in ("strp", "line_strp"):
        text = ("\u00e9" + "abcdefgh" * (n // 8 + 1))[:n]
        strings = {form: b"\0xy\0" + text.encode() + b"\0tail\0"}
        offs = [1, 4, 4 + len(text.encode()) - 3, 4 + len(text.encode()) + 1]
        return one_unit(Die(0x11, [(0x3, form, offs[0])], [Die(0x34, [(0x3, form, o), (0xB, "data1", 3)]) for o in offs]), strings=strings)
    v = ("ab\u20acd" * (n // 4 + 1))[:n] if form == "string" else pattern(n, 3)
    if form == "exprloc":
        return one_unit(Die(0x11, [], [Die(0x34, [(0x1C, form, v), (0xB, "data1", 3)])]))
    return one_unit(Die(0x11, [(0x1C, form, v)], [Die(0x34, [(0x1C, form, v), (0xB, "data1", 3)])]))


def large_far(n, e):
    """Entries and references far into a unit, a unit that begins there, an abbreviation table that begins there."""
    info = Info(*ENV[e])
    t = info.table(Table(), b"\0" * (n // 3))
    far = [Die(0x34, [(0x49, "ref4", n), (0x1D, "ref_udata", n), (0x31, "ref_addr", n)]), Die(0x34, [(0x49, "ref2", min(n, 0xFFFF))])]
    units = [dict(table=t, version=4, root=Die(0x11, [(0x1C, "block4", bytes(n))], far)), dict(table=t, version=5, root=Die(0x11, [(0x1C, "block4", bytes(5))], far))]
    info.prepare(units)
    run(info)
    return len(info.info)


def small(n):
    return Die(0x11, [(0x3, "string", f"unit{n}"), (0x10, "sec_offset", n)],
               [Die(0x2E, [(0x11, "addr", 0x10 + n), (0x49, "ref4", 0x0B + n)], [Die(0x05, [(0x39, "data1", n)])]), Die(0x34, [(0x3, "strp", 1)])])


def do_units(kinds, e, sharing):
    """sharing 0: one table, 1: a table per unit, 2: alternating"""
    info = Info(*ENV[e])
    if sharing == 0:
        tabs = [info.table(Table())] * len(kinds)
    elif sharing == 1:
        tabs = [info.table(Table()) for _ in kinds]
    else:
        two = [info.table(Table()), info.table(Table(), b"\0")]
        tabs = [two[i % 2] for i in range(len(kinds))]
    units = []
    for i, (version, kind) in enumerate(kinds):
        units.append(dict(version=version, kind=kind, table=tabs[i], root=small(i), padding=i % 3))
    info.prepare(units)
    return repr(run(info).die_map)


def do_unitshapes(a, b, pad, e):
    info = Info(*ENV[e])
    t = info.table(Table())
    info.prepare([
        dict(table=t, root=shape(a, lambda: bool(pad & 1), [0]), padding=pad),
        dict(table=t, root=shape(b, lambda: bool(pad & 2), [1], (0x34, 0x11, 0x2E)), padding=3 - pad, version=5),
    ])
    return repr(run(info).die_map)


def values(form, addr, version=4):
    ints = lambda n: [0, 1, 0x7F, 0x80, (1 << 8 * n) - 1, 1 << 8 * n - 1, int.from_bytes(bytes(range(1, n + 1)), "big")]  # noqa: E731
    if form in ("addr",):
        return ints(addr)
    if form in ("data1", "data2", "data4", "data8"):
        return ints(int(form[4:]))
    if form in ("ref1", "ref2", "ref4", "ref8"):
        return ints(int(form[3:]))
    if form == "ref_addr" and version == 2:
        return ints(addr)
    if form in ("ref_addr", "sec_offset"):
        return ints(4)
    if form == "ref_sig8":
        return ints(8)
    if form == "flag":
        return [0, 1, 2, 255]
    if form == "sdata" or form == "implicit_const":
        return [0, 1, -1, 63, 64, -64, -65, 127, 128, -128, -129, 1 << 31, -(1 << 31), (1 << 63) - 1, -(1 << 63)]
    if form in ("udata", "ref_udata"):
        return [0, 1, 127, 128, 16383, 16384, 1 << 32, (1 << 64) - 1]
    if form == "string":
        return ["", "x", "a longer string", "\u00e4\u20ac"]
    if form == "strp":
        return [0, 1, 2, 5, STR.index(b"\xc3"), STR.index(b"a_r") + 3]
    if form == "line_strp":
        return [0, 5, 7, LINE_STR.index(b"x")]
    if form == "flag_present":
        return [1]
    sizes = [0, 1, 2, 127, 128] + ([255] if form == "block1" else [255, 256, 300])
    return [pattern(n, n) for n in sizes]


def do_forms(form, e, version):
    """The form alone, before and after other attributes, in the last entry of a unit and before others."""
    endian, addr = ENV[e]
    out = []
    attr = 0x1C if not form.startswith("ref") else 0x49
    for v in values(form, addr, version):
        info = Info(endian, addr)
        t = info.table(Table())
        one = (attr, form, v)
        mark = (0xB, "data2", 0xABCD)
        units = [
            dict(table=t, version=version, root=Die(0x11, [one, mark], [Die(0x34, [mark, one]), Die(0x34, [one], [Die(0x0D, [one, one])]), Die(0x24, [mark])])),
            dict(table=t, version=version, root=Die(0x11, [one, mark, (0x3F, "flag_present", 1)])),
            dict(table=t, version=version, root=Die(0x3C, [one])),
        ]
        info.prepare(units)
        out.append(repr(run(info).die_entries))
    return hash(tuple(out))


def do_formpairs(a, b, all_envs):
    out = []
    for e in range(len(ENV)) if all_envs else (0, 3):
        endian, addr = ENV[e]
        va, vb = values(a, addr), values(b, addr)
        info = Info(endian, addr)
        t = info.table(Table())
        dies = [Die(0x34, [(0x1C, a, va[i % len(va)]), (0x2F, b, vb[i % len(vb)]), (0x2B, "data1", 0x5A)][:2]) for i in (1, 2, -1)]
        info.prepare([dict(table=t, root=Die(0x11, [(0x3, "string", "u")], dies))])
        out.append(repr(run(info).die_entries))
    return hash(tuple(out))


def do_mixed(versions, sizes, e):
    """Units of different versions and address sizes next to each other, with shared and own tables."""
    out = []
    for own in (False, True):
        info = Info(*ENV[e])
        tables = [info.table(Table()) for _ in (versions if own else [0])]
        units = []
        for k, (v, n) in enumerate(zip(versions, sizes)):
            attrs = [(0x11, "addr", (1 << 8 * n) - 2 - k), (0x49, "ref_addr", (0x11223344556677 + k) % (1 << (8 * n if v == 2 else 32))), (0x12, "addr", 0x7F - k), (0x3, "string", "s")]
            root = Die(0x11, attrs, [Die(0x34, attrs[1:]), Die(0x2E, attrs[::-1], [Die(0x05, attrs[:1])])])
            units.append(dict(table=tables[k if own else 0], version=v, addr=n, root=root, kind=(1, 2, 4)[k % 3]))
        info.prepare(units)
        out.append(repr(run(info).die_entries))
    return hash(tuple(out))


def do_tags(t):
    info = Info()
    tab = info.table(Table())
    info.prepare([dict(table=tab, root=Die(0x11, [], [Die(t, [(3, "string", "n")], [Die(t)]), Die(0x34)]))])
    return repr(run(info).die_entries)


def do_attrs(a):
    out = []
    if a in LOCATION:
        exprs = {b"\x91\x70": "fbreg(-16)", b"\x03\x01\x02\x03\x04\x9f": "addr(0x04030201); stack_value()", b"": "", b"\x50": "reg0()"}
        cases = [(f, v) for f in ("exprloc", "block", "block1", "block2", "block4") for v in exprs]
        cases += [("data4", 0x1234), ("sec_offset", 0x10), ("data1", 4), ("udata", 300), ("data8", (1 << 64) - 1), ("implicit_const", -4)]
    elif a in ENCODED:
        exprs = None
        cases = [(f, v) for f in ("data1", "data2", "udata") for v in sorted({*ENCODED[a][1], 0x3E, 0x77}) if not (f == "data1" and v > 255)]
        cases += [("implicit_const", 1), ("sdata", 1), ("block1", b"\1\2")]
    else:
        exprs = None
        cases = [("data1", 3), ("string", "text"), ("block1", b"\1\2\3"), ("flag_present", 1), ("ref4", 0x20), ("implicit_const", -3), ("implicit_const", 200)]
    for form, v in cases:
        info = Info()
        t = info.table(Table())
        info.prepare([dict(table=t, root=Die(0x11, [(0x3, "string", "u")], [Die(0x34, [(a, form, v), (0xB, "data1", 9)]), Die(0x24, [(a, form, v)])]))])
        out.append(repr(run(info, exprs).die_entries))
    return hash(tuple(out))


def do_abbrevs(perm, codes, layout):
    """Codes need not be ascending nor used in the order of the table."""
    n = len(perm)
    kinds = [Die(0x11, [], [], True), Die(0x34, [(0x3, "string", "v")]), Die(0x24, [(0xB, "data1", 4), (0x1C, "implicit_const", -2)]), Die(0x0D, [(0x38, "udata", 5)]), Die(0x05)][:n]
    order = sorted(range(n), key=lambda i: perm[i])
    info = Info(">" if layout & 1 else "<", 4)
    table = Table([kinds[i].key() for i in order], [codes[i] for i in order])
    other = Table([k.key() for k in kinds], codes[::-1])
    spare = Table([("x",)][:0])
    if layout < 2:
        tabs = [info.table(table), info.table(other)]
    else:
        tabs = [info.table(spare, b""), info.table(other, b"\0\0"), info.table(table, b"\0")][1:][::-1]

    def root():
        kids = [Die(k.tag, k.attrs) for k in kinds[1:]]
        return Die(0x11, [], kids + kids[::-1] + kids[:1], True)

    info.prepare([dict(table=tabs[0], root=root()), dict(table=tabs[1], root=root(), version=5), dict(table=tabs[0], root=root(), version=3)])
    return repr(run(info).die_map)


def sample(k):
    info = Info(*ENV[k])
    t = info.table(Table())
    u = info.table(Table())
    info.prepare([dict(table=t, root=small(k)), dict(table=u, root=Die(0x11, [(0x3, "udata", k)], [small(k + 1)]), version=5)])
    return info


def do_repeat(a, b):
    """Results of a processor do not depend on earlier runs or other processors."""
    ia, ib = sample(a), sample(b)
    with processor(ia) as (pa, ea), processor(ib) as (pb, eb):
        return repeat(ia, ib, pa, pb, ea, eb)


def repeat(ia, ib, pa, pb, ea, eb):
    r1 = pa.do_dbg_info()
    verify(ib, pb.do_dbg_info())
    verify(ia, pa.do_dbg_info())
    r2 = pb.do_dbg_info()
    verify(ia, r1)
    verify(ib, r2)
    # changing a result does not influence the next one
    r1.die_entries[0].children.clear()
    r1.die_entries[0].attributes.clear()
    verify(ia, pa.do_dbg_info())
    verify(ib, r2)
    stored(ea, pa.do_dbg_info())
    stored(eb, pb.do_dbg_info())
    return repr(r2.die_map)


def elf_document(cls, e, order):
    """(ELF file, its description, the debug information in it)"""
    info = Info("<" if e == 1 else ">", 4 * cls)
    t = info.table(Table())
    big = (1 << 64) - 1
    dies = [Die(0x34, [(0x1C, "data8", big), (0x11, "addr", (1 << 32 * cls) - 2), (0x1C, "block1", b"\0\xff")]), small(3)]
    units = [dict(table=t, root=Die(0x11, [(0x3, "string", "m"), (0x1B, "line_strp", 7)], dies)), dict(table=t, root=small(1), version=5)]
    return elf_with(cls, e, order, info.prepare(units))


def elf_with(cls, e, order, info):
    secs = [dict(name=n, type=1, flags=0, addr=0, data=d) for n, d in sections(info).items()]
    secs.append(dict(name=".text", type=1, flags=6, addr=0x1000, data=b"\1\2\3\4"))
    secs = secs[order:] + secs[:order]
    return *elfgen.build(cls, e, secs), info


def do_elffile(cls, e, order):
    import os
    import shutil
    import tempfile

    from objutils.dwarf import DwarfProcessor
    from objutils.elf import ElfParser

    blob, _, info = elf_document(cls, e, order)
    d = tempfile.mkdtemp(prefix="w03-")
    try:
        path = os.path.join(d, "a.elf")
        with open(path, "wb") as f:
            f.write(blob)
        for _ in range(2):  # imported, then from the data base
            ep = ElfParser(path)
            try:
                result = DwarfProcessor(ep).do_dbg_info()
                verify(info, result)
                stored(ep, result)
            finally:
                ep.db.close()
    finally:
        shutil.rmtree(d)
    return cls, e, order
