# fmt: off
TECH_IN = "exhaustive bounded enumeration of inputs on the real code, compared with an independent reference model"
TECH_BFS = "explicit-state search: operation histories on the real objects in lockstep with a reference model"
TECH_SCHED = "explicit-state search of histories plus preemption-bounded exploration of all thread schedules of the real code"
TECH_FAULT = "exhaustive fault enumeration on the real code, judged by a reference model"
NOTE_IN = "Holds on every case of the enumerated space (bounds in the evidence and DESIGN.md); nothing is sampled. Trusts the reference model in mc/ and the interpreter; values outside the boundary sets are not covered."
NOTE_BFS = "Holds on every operation history up to the stated depth over the stated alphabet. Trusts the reference model in mc/; longer histories and other operand values are not covered."

prop("M01", "A memory image behaves as a sparse byte map under every history",
     "After any sequence of inserting, writing and joining, an image shows exactly the bytes put at each address: sections are sorted, disjoint and (when joining) maximal, membership, reads and section lookup agree with the byte map, and reads or writes that touch an unmapped address, or of a negative length, are refused. An operation that is refused, in particular an insertion which overlaps existing data, leaves the image unchanged.",
     ["histories", "inputs"], "every history of insert/write/join operations up to length 4 (thorough 5) over a small address window at several base addresses, every byte layout of the window",
     "The tests try individual calls on hand-written layouts; the guarantee is about every order and combination of insertions, writes and joins, including refused ones.",
     ["objutils/image.py", "objutils/section.py"],
     [("ordered insertion, overlap test, lookup and joining", "objutils/image.py:Image"), ("coalescing", "objutils/section.py:join_sections"), ("bounds checks", "objutils/section.py:Section")],
     TECH_BFS, NOTE_BFS, ["Image.read/write/insert_section/join_sections/get_section/__contains__/__iter__"], [("_sections", "sorted disjoint sections", "objutils/image.py:Image")])

prop("M02", "Objects handed in, handed out or derived never change each other",
     "Sections, images, buffers, lists, arrays and documents are independent values: changing the object something was built from, changing a returned value, or changing one of two objects derived from the same source has no effect on the others, and no operation alters its arguments.",
     ["histories", "inputs"], "every kind of source object x way of deriving x mutation sequence up to length 3 (thorough 4), every codec",
     "Aliasing only shows when one object is changed after another was derived from it; the tests check the derived object once, right away.",
     ["objutils/section.py", "objutils/image.py", "objutils/hexfile.py", "objutils/binfile.py"],
     [("copying on construction", "objutils/section.py:Section, _data_converter"), ("copying on joining and insertion", "objutils/section.py:join_sections; objutils/image.py:Image.insert_section"), ("default arguments", "objutils/image.py:Image.__init__")],
     TECH_BFS, NOTE_BFS)

prop("M03", "Typed numeric access is exact, bounded and byte-order correct",
     "Reading or writing a number or array of numbers of any supported type and byte order at an address transfers exactly its standard representation and touches no other byte; write then read returns the value. Values that are out of range, unknown types, and accesses which do not lie completely inside the data are refused without changing anything.",
     ["inputs"], "every data type and byte order x boundary and single-bit values x placement in sections of all small sizes, scalar and array, via sections and images",
     "Tests check a handful of values per type; the guarantee concerns every value, lane, alignment and end-of-section placement.",
     ["objutils/section.py", "objutils/image.py"],
     [("type table and struct packing", "objutils/section.py:FORMATS, TYPES, Section.read_numeric/write_numeric(_array)"), ("delegation", "objutils/image.py:Image")],
     TECH_IN, NOTE_IN)

prop("M04", "Strings, arrays and searches see exactly the bytes of the image",
     "Strings end at the first terminator or the given length and survive write-then-read in every supported encoding; numeric arrays of any element type, shape and memory layout survive write-then-read; searching reports every non-overlapping match with its absolute address. None of them reads or writes outside the data; accesses that would are refused and change nothing.",
     ["inputs"], "all string lengths/placements/terminator positions, all code points of a range, all element types x shapes x layouts, all patterns up to length 3 in all texts up to a length over a two letter alphabet",
     "Off-by-one at the end of a section, multi-byte encodings, non-contiguous arrays and adjacent matches depend on combinations the tests do not enumerate.",
     ["objutils/section.py", "objutils/image.py"],
     [("strings", "objutils/section.py:Section.read_string/write_string"), ("arrays", "objutils/section.py:Section.read_ndarray/write_ndarray"), ("search", "objutils/section.py:Section.find")],
     TECH_IN, NOTE_IN)

prop("M05", "An image depends only on its bytes, not on how they were cut or ordered",
     "Whatever way the same bytes are cut into sections, in whatever order and by whatever construction path they are put together, the resulting joined image is the same and compares equal. Images which differ in a single byte, address or section compare unequal.",
     ["inputs", "histories"], "every composition of a small layout into sections x every insertion order x construction path; every single-point difference",
     "The number of cuts and orders is combinatorial; tests use one or two.",
     ["objutils/image.py", "objutils/section.py"],
     [("joining", "objutils/section.py:join_sections"), ("equality", "objutils/image.py:Image.__eq__; objutils/section.py:Section.__eq__")],
     TECH_IN, NOTE_IN)

CODEC_FILES = ["objutils/hexfile.py", "objutils/ihex.py", "objutils/srec.py", "objutils/titxt.py", "objutils/ash.py", "objutils/emon52.py", "objutils/tek.py", "objutils/etek.py", "objutils/sig.py", "objutils/mostec.py", "objutils/rca.py", "objutils/cosmac.py", "objutils/fpc.py", "objutils/shf.py"]
prop("C01", "Every hex format reads back exactly the image that was written",
     "For every supported text format, loading what was saved yields exactly the saved image: the same addresses, lengths and bytes, for every admissible record length, any section layout, and every byte value.",
     ["inputs"], "per format: all lengths up to several records x boundary addresses x record lengths, multi-section layouts with gaps, every byte value in every lane",
     "Tests round-trip one short text per format; losses appear at record boundaries, 64 KB borders, gaps and particular byte values.",
     CODEC_FILES, [("record loop", "objutils/hexfile.py:Reader.read, Writer.dumps"), ("per-format record composition/parsing", "objutils/<format>.py: Reader.checkLine/isDataLine, Writer.composeRow")],
     TECH_IN, NOTE_IN, ["objutils.dumps / objutils.loads"])

prop("C02", "Written documents are well-formed and denote exactly the image",
     "Every document written conforms to its format (framing, byte counts, checksums, address fields, record sizes, termination) and, read by an independent strict decoder, denotes exactly the bytes of the image, each once.",
     ["inputs"], "same image space as C01",
     "A reader and writer that share a mistake still round-trip; tests compare with a few golden texts only.",
     CODEC_FILES + ["objutils/checksums.py"], [("record composition", "objutils/<format>.py: Writer.composeRow/composeHeader/composeFooter"), ("checksums", "objutils/checksums.py")],
     TECH_IN, NOTE_IN)

prop("C03", "Readers load exactly what any well-formed document denotes",
     "Any well-formed document, whoever wrote it (any record sizes and order, letter case, line ends, address records, optional header/count/termination records), loads to exactly the image it denotes.",
     ["inputs"], "all cuts of small byte ranges into records x all record orders x format styles, boundary addresses and record sizes",
     "Tests read one sample file per format, mostly in the dialect of the library's own writer.",
     CODEC_FILES, [("line classification and parsing", "objutils/hexfile.py:Reader.read, objutils/<format>.py"), ("extended addressing", "objutils/ihex.py:Reader.special_processing")],
     TECH_IN, NOTE_IN)

prop("C04", "A damaged record never loads as different content",
     "If any digit protected by a record's byte count or checksum is altered, or a data byte is lost or repeated, loading either fails with an error or yields the original image, never silently something else. A data record whose checksum or byte count is wrong is refused, and so is an FPC record made of groups which are not five characters or exceed 32 bits.",
     ["fault_sequences", "inputs"], "every digit position of the protected fields x every other digit, every wrong checksum value, every wrong byte count, every deleted/duplicated byte, every other character of FPC records, over documents covering record sizes and addresses",
     "Tests corrupt one record of some formats; detection must work for each position, value and format.",
     CODEC_FILES + ["objutils/checksums.py"], [("byte count and checksum verification", "objutils/hexfile.py:Reader.read; objutils/<format>.py: Reader.checkLine"), ("checksums", "objutils/checksums.py")],
     TECH_FAULT, "Every single-digit and single-byte fault of the enumerated documents is injected; multi-digit faults that cancel in a sum are outside the guarantee.")

prop("C05", "What a format cannot express is refused; what it can is accepted",
     "An image with an address beyond the format's address space, or a record length beyond its record capacity, is refused with an error naming the cause; every image and record length within the limits is accepted up to the very last address and byte.",
     ["inputs", "configurations"], "images ending at every offset around each format's address limit x forms x record lengths 0..capacity+n",
     "Limits are off-by-one prone and differ per format; the tests do not touch them.",
     CODEC_FILES, [("limit checks", "objutils/hexfile.py:Writer.dumps"), ("per-format limits", "objutils/<format>.py: MAX_ADDRESS_BITS, MAX_ROW_LENGTH")],
     TECH_IN, NOTE_IN)

prop("C06", "Converting between formats preserves the image",
     "Loading a document in one format and saving it in another, along any chain of formats, preserves every address and byte that the formats can express.",
     ["inputs"], "all ordered triples of formats x section layouts x record lengths",
     "There are thousands of format triples; tests convert along none of them.",
     CODEC_FILES + ["objutils/binfile.py", "objutils/__init__.py"], [("load/dump front end", "objutils/__init__.py; objutils/hexfile.py")],
     TECH_IN, NOTE_IN)

prop("C07", "S-Record options and meta data produce the prescribed records",
     "For every combination of record type, count record, start address, header records and record length, the written S-Record document consists of exactly the prescribed records in order, and reading it returns the same data and header meta data.",
     ["configurations", "inputs"], "all combinations of 4 type settings x count on/off x 10 start addresses x headers x record lengths x images",
     "Tests use the defaults and one or two options.",
     ["objutils/srec.py", "objutils/hexfile.py"], [("record type selection and S0/S5/S7-9 records", "objutils/srec.py:Writer"), ("meta data", "objutils/srec.py:Reader")],
     TECH_IN, NOTE_IN)

prop("C08", "Files and memory documents agree; failures surface and spare the target",
     "Loading from or saving to a path, a file object and memory are equivalent. An operation that fails - refused image, malformed document, or an I/O error at any point - raises an error, and a refused save leaves an existing target file as it was.",
     ["fault_sequences", "inputs"], "every codec x image x previous file content x failure of each single I/O operation x refusal reason",
     "I/O failures at each individual operation and pre-existing longer targets are not exercised by any test.",
     ["objutils/hexfile.py", "objutils/binfile.py", "objutils/__init__.py"], [("file handling", "objutils/hexfile.py:Reader.load, Writer.dump; objutils/utils create_string_buffer")],
     TECH_FAULT, "Each I/O operation is made to fail in turn (single faults) for the enumerated documents; partial writes by the OS inside one call are not modelled.")

prop("C09", "A binary dump is the memory from first to last address, gaps filled",
     "The plain binary format writes exactly the bytes from the first to the last address of the image with every gap replaced by the chosen filler byte, and loads a byte string at the given address; invalid fillers are refused.",
     ["inputs"], "all section layouts of a window, all 256 fillers in each spelling, boundary gap sizes and load addresses",
     "The existing tests do not cover the binary format beyond one layout.",
     ["objutils/binfile.py"], [("gap filling", "objutils/binfile.py:Writer.dumps"), ("loading", "objutils/binfile.py:Reader.loads")],
     TECH_IN, NOTE_IN)

prop("C10", "Codec operations do not influence each other, in sequence or concurrently",
     "The result of loading or saving depends only on its arguments: not on what the same reader, writer or the library processed before (including failed operations), nor on other loads and saves running in other threads at the same time.",
     ["histories", "schedules"], "every sequence of up to 3 (thorough 4) operations incl. failing ones per codec and object; all thread schedules of two operations up to the preemption bound",
     "State left behind by one document in a reader, writer or class only shows with a particular successor, or under a particular interleaving.",
     CODEC_FILES, [("per-instance/per-call state", "objutils/hexfile.py:Reader, Writer; objutils/ihex.py, fpc.py, srec.py, ash.py"), ("option handling", "objutils/hexfile.py:BaseType")],
     TECH_SCHED, "All histories up to the depth; schedules at line granularity up to the preemption bound (the interpreter lock makes lines of pure Python the practical switch points).")

prop("R01", "The codec registry is one consistent map under histories and schedules",
     "There is one registry; a name (in any letter case) maps to the codec first registered under it, a second registration is refused, unknown names are refused, and all of this stays true when threads construct, register, look up and list concurrently.",
     ["histories", "schedules"], "all register/lookup/list/construct histories up to length 4 (5); all schedules of 2-3 threads up to 3/2 preemptions at line and 2 at byte code granularity",
     "The tests register sequentially; check-then-act races need a preemption between two particular lines.",
     ["objutils/registry.py", "objutils/__init__.py"], [("singleton", "objutils/registry.py:Registry"), ("registration", "objutils/registry.py:Registry.register")],
     TECH_SCHED, "All histories up to the depth and all schedules up to the preemption bound over the listed scenarios.")

prop("K01", "Checksums equal their standard definitions for every message",
     "Every checksum function (8/16/32-bit additive sums, CRC-16, CRC-16-CCITT, CRC-32, LRC, nibble and rotating exclusive-or sums) returns the value its standard definition gives for every message, in any byte container, without altering it; an unknown algorithm or unsupported width is refused.",
     ["inputs"], "all 1- and 2-byte messages, all messages up to length 5 (7) over boundary bytes, all single-bit messages, long patterned messages x every algorithm, width, complement and rotation",
     "A wrong table entry, carry or reflection shows for a few messages only; tests use one message per algorithm.",
     ["objutils/checksums.py"], [("CRC tables and sums", "objutils/checksums.py")],
     TECH_IN, NOTE_IN)

prop("D01", "A binary difference turns the first byte string into the second",
     "The binary difference of two byte strings lists, in ascending order, maximal runs of modified bytes and at most one final append or delete; applying it to the first string yields the second, it is empty exactly if they are equal, and it reports both contents at their offsets.",
     ["inputs"], "all ordered pairs of strings up to length 7 (9) over 2 letters and 4 (5) over 3 letters, all pairs of single bytes, long strings with changes at every kind of position",
     "Runs ending at the common end, or next to an append or delete, depend on combinations of both strings.",
     ["objutils/utils/diff.py"], [("run collection", "objutils/utils/diff.py:diff_bin")],
     TECH_IN, NOTE_IN)

prop("H01", "A hexdump shows exactly the content of the image",
     "A hexdump shows each byte of every section once, at its address, in hexadecimal and as text (printable ASCII or a dot); repeated rows are replaced by one asterisk only where all rows really repeat the row before, and the first and last row and the byte count are always shown.",
     ["inputs"], "all sequences of up to 6 (8) rows over 3 contents x lengths of the last row x start addresses, every length to 129, every byte value in every column, multi-section images",
     "Elision depends on the sequence of rows, across sections as well; the tests compare a few whole dumps.",
     ["objutils/hexdump.py", "objutils/section.py", "objutils/image.py"], [("elision and columns", "objutils/hexdump.py:Dumper, CanonicalDumper"), ("front end", "objutils/image.py:Image.hexdump; objutils/section.py:Section.hexdump")],
     TECH_IN, NOTE_IN)

prop("U01", "Helper functions, file views and singletons do what they promise",
     "The helpers compute what their names say for every argument: numbers are split into their bytes, most significant first; the first set bit is found; sequences are cut into slices of the given length which make up the whole and keep its type; argument lists are flattened by one level; partial calls pass on all arguments; Cygwin paths are translated, others left alone; structures show their enumerations by name; fillers and parts of files are exact. The view of a file shows the file which was opened, is writable only if asked for and leaves no file open. Each singleton class has exactly one instance of its own, whatever is created first and by however many threads.",
     ["inputs", "histories", "schedules"], "all numbers up to 2^16 and two-bit patterns up to 2^70; sequences of all lengths up to 40 x all slice lengths; argument lists of up to 4 of 18 shapes; files of 20 sizes x events; all histories of 5 (6) constructions over 6 classes, all schedules of 2-3 threads with up to 3 (4) preemptions",
     "The tests touch only the path translation; the helpers decide over addresses, checksums and record layouts of most formats.",
     ["objutils/utils/__init__.py", "objutils/section.py"],
     [("helpers", "objutils/utils/__init__.py"), ("filler", "objutils/section.py:filler"), ("double-checked locking", "objutils/utils/__init__.py:SingletonBase")],
     TECH_SCHED, "All arguments, files and histories within the bounds and all schedules up to the preemption bound over the listed scenarios.")

prop("B01", "The binary reader decodes numbers and strings at any position and order",
     "Reading fixed-width integers in any byte order, LEB128 numbers of any length (padded ones included) and NUL-terminated strings yields the encoded value and advances the position by exactly its size, whatever was read before; a read beyond the end of the buffer fails.",
     ["inputs", "histories"], "all 1-2 byte LEB128 encodings and boundary groups of longer ones, all 16 bit patterns, single-bit patterns of wider numbers, all truncations, all read histories up to depth 3 (4)",
     "Sign extension, padding and truncation are decided by single bits in particular groups; reads follow each other in arbitrary order.",
     ["objutils/readers.py"], [("integers, LEB128 and strings", "objutils/readers.py")],
     TECH_BFS, NOTE_BFS)

prop("W01", "Primitive DWARF encodings are decoded exactly and use exactly their bytes",
     "The building blocks of DWARF sections - signed and unsigned LEB128 numbers of any length (padded ones included), blocks with any kind of length prefix, target addresses of 1 to 8 bytes in either byte order, string references, and lists of strings and file names - parse to the encoded value and consume exactly their bytes, build back where building is supported, and truncated data is refused.",
     ["inputs"], "all 1-2 byte LEB128 sequences and boundary groups of longer ones, all block lengths around prefix limits, single-bit addresses, every string offset, all truncations",
     "One wrong bit or one byte too many shifts everything behind it; only particular lengths and bit patterns show it.",
     ["objutils/dwarf/encoding.py"], [("LEB128, block, address and string constructs", "objutils/dwarf/encoding.py")],
     TECH_IN, NOTE_IN)

prop("W02", "DWARF expressions are shown operation by operation with the right operands",
     "Evaluating a DWARF expression lists exactly its operations in order, each with its name and operands as encoded for the byte order and address size of the processor used, whatever was evaluated before by it or by other processors alive at the same time; unknown opcodes are shown as such and an operand that is cut off never shows as a value.",
     ["inputs", "histories"], "every opcode x operand boundary values x 4 configurations, all ordered opcode pairs (triples of signature classes in the thorough tier), all truncations, evaluation histories over several processors",
     "Operand sizes depend on opcode, byte order and address size, and a wrong size corrupts the operations behind; tests evaluate a few expressions in one configuration.",
     ["objutils/dwarf/sm.py", "objutils/dwarf/encoding.py"], [("opcode table and dispatch", "objutils/dwarf/sm.py:StackMachine")],
     TECH_BFS, NOTE_IN)

prop("W03", "Debugging information entries are reproduced as the tree of the file",
     "Processing the .debug_abbrev, .debug_info and string sections of a well-formed file yields for every unit exactly the tree of entries - tags, order, nesting, offsets - and for every entry exactly its attributes with their decoded values, in the returned tree, the map by offset and the data base alike, however often they are processed; for all units, unit types, versions 2 to 5, byte orders, address sizes and supported forms.",
     ["inputs"], "all ordered trees up to 6 (8) entries x leaf encodings x null padding, unit sequences of every version and type, every form x boundary values x version x address size x byte order, every tag and attribute, abbreviation tables in all orders",
     "Nesting, null entries and abbreviation sharing are combinatorial; the tests use a few compiled binaries of one producer.",
     ["objutils/dwarf/__init__.py", "objutils/dwarf/constants.py", "objutils/elf/model.py"],
     [("unit headers, abbreviations, entries", "objutils/dwarf/__init__.py:DwarfProcessor.do_abbrevs/do_dbg_info"), ("forms and attribute display", "objutils/dwarf/__init__.py, constants.py")],
     TECH_IN, NOTE_IN)

prop("E01", "An ELF file is represented exactly: headers, segments, sections, symbols",
     "For 32 and 64 bit files in either byte order, the parser shows every field of the file header, of every segment, section and symbol with the value in the file (up to 64 bits, unsigned), each section with its name and content, and each symbol with its name, section and the access flags of that section; the same after re-opening, when the data base of the first import is used. Files with a bad magic or byte order mark, and files cut off at any point, are refused, and refusing one does not affect later files.",
     ["inputs"], "every header field x boundary and single-bit values x class x byte order, all symbol binding/type pairs, section sequences of symbols, table layouts, every truncation, each read freshly and from the data base",
     "The tests open a few real binaries; field widths, byte orders, signs and table placements are combinations.",
     ["objutils/elf/__init__.py", "objutils/elf/model.py", "objutils/elf/defs.py"],
     [("header, section, segment and symbol structures", "objutils/elf/__init__.py:ElfParser"), ("persistence", "objutils/elf/model.py")],
     TECH_IN, NOTE_IN)

prop("E02", "The memory image made from an ELF file is its allocated content",
     "The image made from an ELF file contains exactly the content of the allocated sections that have content, each byte at the address the section header gives, and nothing else; include and exclude patterns select sections by name, joining is as requested, and every used section is reported once in order of address. This holds for freshly imported files and for those opened from the data base, and changing the image affects neither the file nor later images.",
     ["inputs", "configurations"], "all sequences of up to 3 (4) sections over 9 kinds, all address orders of adjacent and separate sections up to 2^64, all pairs of include/exclude patterns, every flag bit and section type",
     "The tests extract one image from one binary; which sections count, and where, depends on flag, type, order and pattern combinations.",
     ["objutils/elf/__init__.py", "objutils/elf/model.py", "objutils/section.py", "objutils/image.py"],
     [("section selection and image construction", "objutils/elf/__init__.py:ElfParser.create_image")],
     TECH_IN, NOTE_IN)

prop("E03", "Lookups of ELF sections and symbols select and order what the file holds",
     "Looking up sections or symbols - by name, by lists or patterns of names, by binding, type, access and section, in either order of either key, singly or all - returns exactly the matching entries of the file, all of them, in the requested order, with the derived properties (access, visibility, content) their fields imply. Unknown names give nothing, and lookups do not depend on earlier ones.",
     ["inputs", "configurations"], "tables with every combination of section, binding, type and name x all combinations of filter arguments; every flag, visibility and binding value; all value orders of 3 (4) entries up to 2^64",
     "Filters are combined in a query; the tests call a few of them with one argument on one binary.",
     ["objutils/elf/__init__.py", "objutils/elf/model.py"],
     [("queries", "objutils/elf/__init__.py:SectionAPI, SymbolAPI"), ("derived properties", "objutils/elf/model.py:Elf_Section, Elf_Symbol")],
     TECH_IN, NOTE_IN)

prop("E04", "The data base next to an ELF file never changes what is shown",
     "What is shown for an ELF file is always the content of that file: after any sequence of replacing the file, opening, damaging or deleting data bases, after a crash or failure at any point of an import, and with another parser importing at the same time. Opening either succeeds with the right content or fails with an error; a valid file can be opened again after any failed or interrupted attempt.",
     ["crash_points", "histories", "schedules", "fault_sequences"], "all histories of up to 3 (4) of 18 events; every prefix of the file system changes of an import (last write also torn; thorough: crash while recovering); an exception at every call and SQL statement; a full disk at every size; two parsers under every schedule with up to 2 preemptions",
     "No test interrupts an import, replaces a file under its data base or opens a file twice at the same time.",
     ["objutils/elf/__init__.py", "objutils/elf/model.py"],
     [("cache validation and creation", "objutils/elf/__init__.py:ElfParser.open, create_db_on_demand"), ("data base set up", "objutils/elf/model.py:Model")],
     TECH_FAULT, "All recorded crash prefixes, injected faults, histories and preemption-bounded schedules within the bounds. A crash is the end of the process; loss of power, which can reorder writes, is outside the guarantee (the library turns synchronous writes off).")

prop("E05", "Notes, comments and ARM build attributes are shown as they are in the file",
     "The notes, comment strings and ARM build attributes of an ELF file are listed completely and in order: each note with its section, name, type and descriptor, each comment string once, each attribute under its vendor and sub section with its tag, value and documented meaning, for both classes and byte orders, freshly imported or from the data base. Files without them have none.",
     ["inputs"], "all lengths of note names and descriptors up to 9, up to 3 notes in up to 3 sections; all sequences of up to 3 (4) comment strings; every attribute tag x boundary values, all pairs of tags, all nestings of up to 3 vendors and 3 sub sections",
     "Padding, sub section sizes and tag kinds decide where the next entry begins; the tests use one binary without most of them.",
     ["objutils/elf/__init__.py", "objutils/elf/model.py", "objutils/elf/arm/attributes.py"],
     [("notes and comments", "objutils/elf/__init__.py:ElfParser"), ("build attributes", "objutils/elf/arm/attributes.py")],
     TECH_IN, NOTE_IN)

prop("S01", "The command line tools report and extract exactly what the file contains",
     "What the command line tools print is what the file holds: oj_hex_info lists every section with its address and length, the total and, on request, the content; oj_elf_extract writes a file which denotes exactly the bytes of the allocated sections selected by its patterns, and lists them; oj_elf_syms lists exactly the symbols its options select, per section and in order, with value, size, binding, type and access; oj_elf_info shows the header, all sections, segments, comments, notes, public names and debugging entries, also of files with codes unknown to the library, empty debug sections or none; oj_elf_arm_attrs shows every attribute and its meaning, for ARM files only. A missing file or one of another kind ends with a non-zero exit code, and no run depends on earlier ones.",
     ["inputs", "configurations", "histories"], "documents of all 13 formats x layouts; ELF files over section kinds, orders, header fields, symbols, notes and attributes x the options of the tools; all sequences of 3 runs",
     "The tests never run the tools; what they show depends on the file and on every combination of options.",
     ["objutils/scripts/oj_hex_info.py", "objutils/scripts/oj_elf_extract.py", "objutils/scripts/oj_elf_syms.py", "objutils/scripts/oj_elf_info.py", "objutils/scripts/oj_elf_arm_attrs.py"],
     [("the tools", "objutils/scripts/*.py:main"), ("what they print from", "objutils/elf/__init__.py:ElfParser, objutils/image.py:Image.hexdump, objutils/dwarf/__init__.py:DwarfProcessor")],
     TECH_IN, NOTE_IN)
