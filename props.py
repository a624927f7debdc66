"""What each check runs: feature configurations and stated bounds."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))

CAT = ("the catalogue of about 60 derived types in harness/src/cat (every attribute and container of deku occurs), "
       "inputs of every content and of the lengths MIN..=MAX of each type (up to 25 bytes)")
ALLOC = "; collection counts that the input states are 0-8 (elements up to 12 bytes of input)"

ALLCFG = ["default", "none", "alloc", "bits", "bits_alloc", "all"]

ASSUME = [
    "target x86_64, little endian, release profile with overflow and debug assertions as set in harness/Cargo.toml; LLVM's optimiser and the z3 solver are trusted",
    "core::fmt::write is replaced by a stub that succeeds and writes nothing: error texts are not looked at",
    "malloc never fails below the allocation limit; reads of uninitialised memory that do not influence control flow, an assertion or an address are not noticed",
    "the bit order does not change within a byte; default endianness is the target's",
    "programs are the types of the catalogue and of the property's own harnesses: deku is a macro, and every use of it is another program",
]

PROPS = {
 "C01": dict(cfgs=["default"], bounds=
    "all 14 number types (u8..u128, usize, i8..i128, isize, f32, f64), all 11 forms of context, every width 0..=BITS "
    "(bytes: 0..=size), both byte and bit orders, start bits 0..=7, all contents; too large widths: every usize above "
    "the type's. A byte width on a type of one byte is ignored by deku (documented) and excluded"),
 "C02": dict(cfgs=["default"], bounds=
    "all 14 number types, all 11 forms of context, every value of the type, start bits 0..=7 for 8 and 16 bit types "
    "and 32 bit unsigned; every width for types up to 32 bits, and for 64/128 bit types the widths {0,1,8,9,33,40,55,63,64} / "
    "{1,8,64,65,104,121,127,128} at start bits 0 and 5 (thorough: every width, start bits 0, 1 and 5); too large widths: "
    "every usize above the type's. A byte width on a type of one byte is ignored by deku (documented) and excluded"),
 "C03": dict(cfgs=["default", "none"], cfgs_thorough=ALLCFG, bounds="values and " + CAT + ALLOC +
    ". Types that read differently from how they write are only tried from value to bytes"),
 "C04": dict(cfgs=["default"], bounds=
    "sequences of four operations (two of any of 9/7 kinds: bits, bytes, arrays, padding, numbers with and without a byte "
    "order, byte-wide numbers, flags, end test; widths up to 9 and 18 bits), a probing operation and the rest of the stream, "
    "over 12 arbitrary bytes, bit order changing at byte boundaries; one operation of 63 to 2200 bits behind 0, 3 or 13 bits; thorough: widths up to 17 and 26 bits and one more operation"),
 "C05": dict(cfgs=["default", "none"], cfgs_thorough=ALLCFG, more={"default": ["C04:h_r"]}, bounds=CAT + ", behind 0..=7 bits and before at least one more byte, from_bytes "
    "also at offsets 8 and more and up to 2367; from_bytes and "
    "from_reader with a bit offset are not claimed for types in least-significant-bit-first order"),
 "C06": dict(cfgs=["default"], alloc=65536, bounds=CAT + " plus all shorter ones and one byte more; 64 bit quantities stated by "
    "the input (counts, budgets, widths, padding, seeks): every value of budgets, widths, paddings and seeks, counts 0..=8 and every "
    "count from 65536 up; elements take at least one bit; allocation limit 64 KiB for at most 26 bytes of input, 20 million "
    "instructions per path (40 million in C19, 120 million in C10 and C14); widths, counts and budgets computed from any 64 bit quantity or "
    "the difference of two"),
 "C07": dict(cfgs=["default", "none"], cfgs_thorough=ALLCFG, bounds=CAT + ", every cut of each, behind 0..=7 bits for types up to 9 bytes, else 0 or 3 bits; bytes, bits and skips asked of the Reader directly"),
 "C08": dict(cfgs=["default", "none"], cfgs_thorough=ALLCFG, bounds=CAT + ", behind 0 or 5 bits; one fault at any byte with one of eleven kinds, any seek that fails, bytewise delivery with three interruptions before each byte (70 for the long types), one interruption, or three reads "
    "that return any part of what was asked for, or one interrupted call at any place; the same faults under the Reader's own operations"),
 "C09": dict(cfgs=["default", "none"], cfgs_thorough=ALLCFG, bounds="all values of the catalogue's types" + ALLOC + "; behind 0 or 5 bits; any seek that fails, bytewise acceptance with up to 70 interruptions before each byte; no room or a fault of eleven "
    "kinds at any byte; three writes that take any part; one interruption; the same faults under the Writer's own operations; output slices of every length"),
 "C10": dict(steps=120000000, cfgs=["default"], bounds=
    "collections of every element kind (bytes, numbers, bit fields, structs with and without bits, wrappers, maps, sets) "
    "of up to 3 elements (counts 0..=4, byte and bit budgets up to one more than the input, any predicate value), any content, "
    "behind 0..=7 or 0/5 bits; 64 bit counts and budgets stated by the input, any value that the input cannot satisfy; "
    "collections of 255 to 1500 elements of one byte or bit at chosen lengths, byte vectors of 65535 to 65792; elements take at least one bit"),
 "C11": dict(cfgs=["default", "none"], cfgs_thorough=ALLCFG, bounds=
    "all ids and contents of 30 enums (one of 300 variants): ids of 1 to 128 bits, both byte and bit orders, ids passed by context, structs as ids, "
    "byte strings, negative and explicit discriminants, catch-alls, defaults, behind 0..=7 bits"),
 "C12": dict(cfgs=["default"], bounds=
    "14 types with magic, assert, assert_eq (structs, enums, elements, bit fields, mapped and computed fields, fields with a "
    "reader or writer of their own), all NonZero types in all contexts, bool in all contexts, C strings up to 4 characters with and "
    "without a stated length, and of up to 520 at chosen lengths; magics of 17 to 257 bytes with any one place changed; any content; "
    "writing any value, also those that break the assertions"),
 "C13": dict(cfgs=["default", "none"], cfgs_thorough=ALLCFG, bounds=
    "padding: 6 types with bytes and bits, fixed and stated by earlier fields (up to 15 bits or 9 bytes), behind 0..=7 bits, long "
    "padding of up to 513 bytes or 4097 bits; paddings stated by the current offset; seeks: 31 types with every seek attribute on fields and structs, amounts from the input (all 8 bit amounts, and all 64 bit "
    "amounts when reading and, to a sink that only tracks its position, when writing; also after the end was looked for), inputs of up to 10 bytes and outputs that already hold 0..=5 of 12 bytes"),
 "C14": dict(steps=120000000, cfgs=["default", "none"], cfgs_thorough=ALLCFG, bounds=CAT + ", whole or cut in half, behind 0..=7 bits; byte vectors of up to 131075 bytes; consumption is compared on success only"),
 "C15": dict(cfgs=["default"], bounds=CAT + ", whole or cut at two thirds, at bit offsets 0..=7 where claimed; all values for writing"),
 "C16": dict(cfgs=["default", "none"], cfgs_thorough=ALLCFG, bounds=
    "all values of 29 derived types (structs, enums of every id kind, arrays, tuples, padding, magic, skipped fields, generics, "
    "contexts, padding of hundreds of bits, arrays of hundreds of elements; catalogue and own) and 20 built-in types, behind 0..=7 bits; a width in bytes on a type of one byte (ignored by "
    "deku) and fields with cond or skip of one direction have no static size and are excluded"),
 "C17": dict(cfgs=["default", "none"], cfgs_thorough=ALLCFG, bounds=
    "all inputs (long enough for the type, at bit offsets 0..=7) and all values of 25 derived types, and of 36 with a first field of 1 to 64 bits in both bit orders, that use and combine cond, "
    "skip, skip(read), skip(write), default, temp, temp_value, map, reader, writer, ctx, ctx_default, count, until, bits and "
    "bytes expressions, endian and bit_order from contexts, bit_offset and byte_offset, up to seven contexts at once, in structs, tuple structs and variants, nested three levels deep; update on "
    "all values of six types, collections of up to 256 elements. cond gates reading; writing emits what the value holds"),
 "C18": dict(cfgs=["default"], bounds=
    "elements that own memory, or have no size, and refuse some of their values after being built, in 40 containers and derived "
    "types (arrays of up to 6, some of up to 33, nested, boxed, shared, Cow, Option, tuples, vectors, slices, maps and sets with up to 5 elements and collections of up to 300, "
    "under every kind of limit, structs, variants, temporary fields, C strings); all contents, cut off or failing at every byte, "
    "at bits 0 and 3; writing to a sink that fails at every byte. Reads of uninitialised memory are seen only through their effect"),
 "C19": dict(steps=40000000, cfgs=["default"], bounds=
    "boxes, shared pointers, Cow, Option, unit, tuples of 1 to 11, arrays of up to 4 and nested, vectors, slices, references, "
    "boxed and shared slices of up to 3, maps and sets of up to 2, over elements of six kinds (bytes, numbers with a byte order, "
    "a bit width, a byte width or the other bit order, a struct with a context and of varying length); addresses, bool and NonZero "
    "in every context they take against the number they are; C strings of up to 3 characters; any content, whole or cut anywhere, "
    "behind 0..=7 bits; containers of up to 1500 elements written at chosen lengths; numbers of 64 and 128 bits behind 0 and 5 bits and cut at 7 places (thorough: everywhere)"),
 "C20": dict(steps=120000000, cfgs=["none", "alloc", "bits", "bits_alloc", "default", "all", "std"],
    more={c: ["C11", "C13", "C17"] for c in ("none", "alloc", "bits", "bits_alloc", "all", "std")},
    more_thorough={"none": ["C03", "C05", "C07", "C08", "C09", "C11", "C13", "C14", "C16", "C17"],
                   "alloc": ["C03", "C05", "C07", "C08", "C09", "C11", "C13", "C14", "C16", "C17"],
                   "bits": ["C03", "C05", "C07", "C08", "C09", "C11", "C13", "C14", "C16", "C17"],
                   "bits_alloc": ["C03", "C05", "C07", "C08", "C09", "C11", "C13", "C14", "C15", "C16", "C17"],
                   "all": ["C03", "C05", "C07", "C08", "C09", "C11", "C13", "C14", "C15", "C16", "C17"],
                   "std": ["C03", "C05", "C07", "C08", "C09", "C11", "C13", "C14", "C16", "C17"]}, bounds=
    "configurations none, alloc, bits, bits+alloc, default, default+logging, std+logging, each against the same reference: all types of the "
    "catalogue that the configuration has, inputs of every content whole or cut anywhere, at bits 0 and 5 where there are bits, all "
    "values for writing, slices with and without room; 14 number types in the 7 contexts that need no bits, byte widths up to "
    "one too many; any three operations on a Reader over 2 or 6 bytes and on a Writer into 8; and the harnesses of C11, "
    "C13 and C17 (thorough: those of C03, C05, C07-C09, C14-C16 as well) in all these configurations"),
}
NOT_APPLICABLE = {
 "C21": "It is about what rustc and the macro refuse while compiling other programs: there is no execution over data to "
        "encode, the input is a program and the output a diagnostic; symbolic execution of a proc-macro (syn, proc_macro2, "
        "darling over symbolic token streams inside rustc) is out of reach of a solver.",
 "C22": "Error texts are built by core::fmt, whose dynamic dispatch over format arguments and number formatting is replaced by a "
        "stub to make the other properties decidable; texts are prose that no assertion over symbolic values can judge.",
}
for p in ("C13", "C16", "C17", "C18", "C19", "C20"):
    if p not in PROPS:
        NOT_APPLICABLE[p] = "not built yet"


def known_findings(prop):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == prop and f["status"] == "known"]
for _k in ("C03", "C05", "C07", "C08", "C09", "C14", "C15", "C20"):
    PROPS[_k]["bounds"] += "; nine types of 70 to 490 bytes (vectors of bytes and numbers, arrays, tuples, many fields, inside a byte in both bit orders), where cut, failing or in pieces at 32 places"
for _p in PROPS.values():
    if _p["cfgs"] == ["default", "none"]:
        _p["bounds"] += "; in the default configuration and, as far as the types exist there, without any feature (thorough: in six of C20)"
