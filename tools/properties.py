"""Writes properties.jsonl."""
import json, sys
P = []
def p(id, title, statement, over, quantifier, why, files, mechanism, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quantifier},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })
C = "src/compact1/"
p("C01", "Reading a font set never panics, overflows or fails to terminate",
  "For every sequence of bytes, reading a compact font set from it (and every lookup in the result, and the conversion of its names) ends with a value or an error: it does not panic, does not overflow, and terminates. Hostile sizes, offsets, counts and identifiers are errors.",
  ["inputs"], "every byte sequence and every starting position in a stream",
  "The tests read four well-formed fonts; no test reads a malformed one, so an index out of bounds, a negative size or an overflow is never exercised.",
  [C+"font_set/mod.rs", C+"font_set/character_id_keyed.rs", C+"font_set/character_name_keyed.rs", C+"index/mod.rs", C+"operation.rs", C+"number.rs", C+"offset.rs", C+"character_set.rs", C+"encoding.rs"],
  [("range checks before casts, additions and indexing", C+"font_set/mod.rs: get!, add!"), ("monotonicity of offsets is checked before subtraction", C+"index/mod.rs")],
  observe=["compact1::FontSet::read", "compact1::FontSet::count", "getters"])
p("C02", "An index yields exactly the objects that its offsets delimit",
  "Reading an index succeeds exactly when its count, its offset size (1 to 4) and its offsets are well formed: the first offset is 1, no offset is smaller than the one before it, and all objects lie within the data. The result then holds, in order, exactly the bytes between each two neighbouring offsets, and reading ends right behind the last object; a count of zero is an empty index of two bytes.",
  ["inputs"], "every byte sequence, offset size and count",
  "The tests read a few indices of real fonts with ascending offsets; wrong sizes, descending offsets, three- and four-byte offsets and truncated data are not reached.",
  [C+"index/mod.rs", C+"offset.rs", C+"index/names.rs", C+"index/strings.rs", C+"index/subroutines.rs", C+"index/dictionaries.rs", C+"index/character_strings.rs"],
  [("reading of an index", C+"index/mod.rs"), ("reading of an offset by its size", C+"offset.rs")],
  observe=["compact1::Index", "compact1::index::*"])
p("C03", "Numbers in dictionaries decode as the format prescribes",
  "Each encoding of a number in a dictionary (one, two, three and five bytes, and packed-decimal reals up to their terminating nibble) decodes to exactly the value that the format assigns to it and consumes exactly its own bytes. Reserved first bytes, the reserved nibble and digits that do not form a number are errors.",
  ["inputs"], "every byte sequence",
  "The tests decode eleven numbers; the value space of the encodings has billions of members, and boundaries between encodings and malformed reals are not reached.",
  [C+"number.rs"], [("decoding by first byte", C+"number.rs"), ("accumulation of nibbles", C+"number.rs: parse")],
  observe=["the operands of compact1::Operations"])
p("C04", "Dictionaries decode to the last operands given for each operator",
  "Reading a dictionary gives, for every operator that occurs in the data with operands before it, exactly those operands in order, the last occurrence of an operator prevailing, and no other operators; one-byte and two-byte operator codes are distinguished as in the format. Unknown operator codes and malformed operands are errors, and reading ends at the end of the data.",
  ["inputs"], "every byte sequence",
  "The tests look at a few operators of the dictionaries of four fonts; repeated operators, most codes and malformed data are not reached.",
  [C+"operation.rs", C+"index/dictionaries.rs"], [("reading of operations", C+"operation.rs"), ("codes of operators", C+"operation.rs: operator!")],
  observe=["compact1::Operations", "compact1::index::Dictionaries::get"])
p("C05", "Absent operators have the default operands of the format",
  "Looking up an operator in a dictionary gives the operands it was given there and otherwise the default operands that the format assigns to that operator, or nothing if there are none. The first operand, or the first two, are given only if there are that many.",
  ["inputs"], "every dictionary and every operator",
  "The tests check the defaults of a handful of operators in particular fonts.",
  [C+"operation.rs"], [("defaults", C+"operation.rs: Operator::default"), ("lookup", C+"operation.rs: Operations::get")],
  observe=["compact1::Operations::get", "compact1::Operator::default"])
p("C06", "A character set covers exactly the glyphs of its font",
  "Reading a character set for a font with n glyphs succeeds only with identifiers for exactly n - 1 glyphs: n - 1 identifiers in format 0, or ranges in formats 1 and 2 whose lengths (the number left plus one) add up to exactly n - 1, as many ranges as are needed and no more. The values are those in the data, in order, and unknown formats, overlong ranges and truncated data are errors.",
  ["inputs"], "every byte sequence and every number of glyphs",
  "The tests read character sets of four fonts, all of them well formed, and no sum of ranges that misses the number of glyphs.",
  [C+"character_set.rs"], [("counting of covered glyphs", C+"character_set.rs")],
  observe=["compact1::CharacterSet"])
p("C07", "Predefined character sets name exactly their members",
  "A predefined character set (ISOAdobe, Expert, ExpertSubset), looked up by the identifiers of standard strings, yields a name exactly for the standard strings other than .notdef that the format lists as its members, and the name is that standard string. A character set given by data yields no name.",
  ["inputs"], "every predefined character set and every 16-bit identifier",
  "The tests look at no entry of these tables; there are 479 entries and 65536 identifiers per set.",
  [C+"character_set.rs"], [("tables", C+"character_set.rs: get_iso_adobe, get_expert, get_expert_subset")],
  observe=["compact1::CharacterSet::get"])
p("C08", "Encodings decode exactly, and predefined encodings match the format",
  "Reading an encoding gives the format, the count and exactly that many codes, ranges or supplements in order, consuming exactly their bytes; unknown formats and truncated data are errors. The predefined encodings map every code from 0 to 255 to the string identifier in the tables of the format, and nothing else.",
  ["inputs"], "every byte sequence; every predefined encoding and every 16-bit code",
  "The tests look at no entry of these tables and read two encodings.",
  [C+"encoding.rs"], [("reading by format", C+"encoding.rs"), ("tables", C+"encoding.rs: get_standard, get_expert")],
  observe=["compact1::Encoding"])
p("C09", "String identifiers resolve to the right string",
  "A string identifier below 391 resolves to the standard string of that number, and any other one to the string of the font's string index at the identifier minus 391, or to nothing if there is none. A number converts to a string identifier exactly if it is an integer from 0 to 65535, and keeps its value.",
  ["inputs"], "every string index and every 16-bit identifier; every number",
  "The tests resolve a few identifiers of one font and check two entries of the table of 391.",
  [C+"index/strings.rs", C+"mod.rs"], [("split at 391", C+"index/strings.rs: Strings::get"), ("conversion", C+"mod.rs")],
  observe=["compact1::index::Strings::get", "TryFrom<Number> for StringID"])
p("C10", "A font set's parts are read from where its header and dictionaries say",
  "Reading a font set reads the name index behind the header by the size stated there, then the dictionary, string and global subroutine indices one after another, and, for each font in order, the character strings, character set, encoding and remaining record at the positions in its dictionary, relative to the start of the font set. Missing, negative or non-integer operands are errors, small offsets select the predefined character sets and encodings, and counting the fonts agrees with the number of names.",
  ["inputs"], "every byte sequence",
  "The tests read four fonts with a four-byte header and one font each, so fonts with other headers, several dictionaries or operands of the wrong kind are not reached.",
  [C+"font_set/mod.rs", C+"header.rs", C+"index/character_strings.rs"], [("order of reading and positions", C+"font_set/mod.rs"), ("jumps relative to the start", "src/compact1/font_set/mod.rs: jump_take!")],
  observe=["compact1::FontSet::read", "compact1::FontSet::count"])
p("C11", "Reading a font set does not depend on where it lies in the stream",
  "A font set that starts anywhere in a stream is read as if the stream began there: bytes before the start have no influence on the result, and all offsets are relative to the start.",
  ["inputs", "configurations"], "every byte sequence, every prefix before it, and every starting position",
  "The tests read fonts at few starting positions; a position that one of the parts forgets to add changes nothing when the font set lies at the beginning.",
  [C+"font_set/mod.rs", C+"font_set/character_id_keyed.rs", C+"font_set/character_name_keyed.rs"], [("position added to each offset", "src/compact1/font_set/mod.rs: jump_take!, jump_take_given!")],
  observe=["compact1::FontSet::read"])
p("C12", "Private dictionaries and local subroutines are found where they are declared",
  "The private dictionary of a font, or of each dictionary of a font keyed by character identifiers, consists of exactly the bytes that the size and the offset of the private operator delimit. Local subroutines are read at the private dictionary's offset plus that of the subroutine operator in it, and are empty if there is no such operator; operands that are negative, not integers, or overflow in the sum are errors.",
  ["inputs"], "every byte sequence and every dictionary",
  "The tests read the private dictionaries of four fonts; fonts without local subroutines, with negative operands or with overflowing sums are not reached.",
  [C+"font_set/character_name_keyed.rs", C+"font_set/character_id_keyed.rs"], [("get!, add!", C+"font_set/mod.rs")],
  observe=["compact1::font_set::character_name_keyed::Record", "compact1::font_set::character_id_keyed::RecordInner"])
p("C13", "Fonts keyed by character identifiers are recognised and read exactly",
  "A font is read as one keyed by character identifiers exactly if its dictionary has the registry-ordering-supplement operator, which must have three operands of which the first two are string identifiers. Its glyph-to-dictionary mapping is read at the position declared, with one entry per glyph in format 0 and all ranges and the sentinel in format 3, and its font dictionaries, with a private dictionary each, in order.",
  ["inputs"], "every byte sequence and every dictionary",
  "The tests read one such font, with a mapping in format 3.",
  [C+"font_set/character_id_keyed.rs", C+"font_set/mod.rs"], [("reading of the record", C+"font_set/character_id_keyed.rs")],
  observe=["compact1::font_set::character_id_keyed::Record"])
T = "src/type2/"
p("C14", "Charstring operands and operators decode as the format prescribes",
  "Each encoding of an operand in a charstring (one, two, three and five bytes) decodes to exactly the number that the format assigns to it, the last as a 16.16 fixed-point number, and every operator code of one or two bytes to the operator of the format. Execution consumes exactly the bytes of operands and operators, in order, and reserved codes are errors.",
  ["inputs", "programs"], "every byte sequence",
  "The tests decode one fixed-point number and two glyphs' programs.",
  [T+"number.rs", T+"operation.rs", T+"program.rs"], [("decoding by first byte", T+"number.rs"), ("codes of operators", T+"operation.rs")],
  observe=["type2::Program::next"])
p("C15", "Arithmetic, stack and conditional operators compute what the format defines",
  "Each arithmetic, stack and conditional operator replaces its operands on the stack with exactly the results that the format defines, the top of the stack being the last operand, and leaves the operands below unchanged. Missing operands, and operands that are not integers where integers are required, are errors.",
  ["inputs", "programs"], "every stack and every program",
  "The tests execute two glyphs' programs, which contain no such operators.",
  [T+"program.rs"], [("operators on the stack", T+"program.rs: Program::step")], [("stack", "the operands", T+"program.rs: Program")],
  ["type2::Program::next"])
p("C16", "Path and hint operators take the longest legal suffix of the operands",
  "Each path, flex and stem operator is produced with the longest run of operands from the end of the stack whose length is legal for that operator in the format, in order, and the stack is empty afterwards. If no legal number of operands is available, the operator is an error.",
  ["inputs", "programs"], "every stack and every program",
  "The tests execute two glyphs' programs; each operator accepts infinitely many numbers of operands, most of which occur in no test.",
  [T+"program.rs"], [("search for the longest legal suffix", T+"program.rs: clear!")], [("stack", "the operands", T+"program.rs: Program")],
  ["type2::Program::next"])
p("C17", "Hint masks skip one bit per stem hint declared so far",
  "A hint-mask or counter-mask operator skips exactly the bytes that hold one bit for each stem hint declared so far, including those declared implicitly by the operands in front of the mask itself, and is produced without operands. A truncated mask is an error.",
  ["inputs", "programs", "histories"], "every program and every number of stem hints",
  "The tests execute two glyphs' programs with few stem hints, so an error in the count beyond a byte boundary goes unnoticed.",
  [T+"program.rs"], [("count of stem hints", T+"program.rs: Program::step")], [("stems", "the number of stem hints so far", T+"program.rs: Program")],
  ["type2::Program::next"])
p("C18", "The width is the surplus operand of the first stack-clearing operator",
  "The width of a program is the operand that precedes the legal operands of the first operator that clears the stack (moves, stems, masks, paths and the end), and there is none if there is no surplus operand there. Later operators never change it.",
  ["inputs", "programs", "histories"], "every program",
  "The tests check the width of two programs after a few operations.",
  [T+"program.rs"], [("width set once", T+"program.rs: Program::step")], [("width", "the width found so far", T+"program.rs: Program"), ("cleared", "whether the stack has been cleared", T+"program.rs: Program")],
  ["type2::Program::width"])
p("C19", "Subroutines are called by biased number and return to their caller",
  "A call executes the local or global subroutine whose number is the operand plus the bias (107, 1131 or 32768, for fewer than 1240, fewer than 33900, or more subroutines), and a return resumes the caller right behind the call. The end operator ends the program, also within subroutines, and nothing is produced after it; calls beyond the limit of nesting, of subroutines that do not exist, and returns without a call are errors.",
  ["inputs", "programs", "histories"], "every program and all collections of subroutines",
  "The tests execute programs with a few calls in fonts of a particular number of subroutines; the other biases and most nestings are not reached.",
  [T+"program.rs"], [("stack of routines", T+"program.rs: Routine"), ("bias", T+"program.rs: bias")], [("routine", "the routine being executed and its callers", T+"program.rs: Program")],
  ["type2::Program::next"])
p("C20", "Executing a charstring never panics, overflows or runs forever",
  "For every program and all collections of subroutines, each request for the next operation ends with an operation, the end of the program or an error: no panic, no overflow of machine arithmetic or of the call stack, and no endless loop or recursion.",
  ["inputs", "programs"], "every program, all collections of subroutines and any sequence of requests",
  "The tests execute programs of two well-formed glyphs.",
  [T+"program.rs", T+"number.rs", T+"operation.rs"], [("checks of the stack and of the nesting", T+"program.rs")],
  observe=["type2::Program::next"])
p("C21", "Failures of the underlying stream are reported, never absorbed",
  "If an operation of the underlying stream fails while a font set or a part of it is read, for any reason other than the end of the data, reading reports an error; it never returns a value. In particular such a failure within a dictionary is not taken for its end.",
  ["inputs", "fault_sequences"], "every byte sequence and every failure of a read or a seek at any point",
  "The tests read from files and memory that never fail.",
  [C+"operation.rs", C+"font_set/mod.rs"], [("propagation with ?", C+"font_set/mod.rs"), ("only the end of the data ends a dictionary", C+"operation.rs")],
  observe=["compact1::FontSet::read"])
p("C22", "Names are converted in order and without loss",
  "Converting a name index gives one string for each name, in order: the text of the bytes if they are valid UTF-8 and otherwise the text with each invalid sequence replaced. Converting a dictionary index gives the dictionary at each position, in order, or an error.",
  ["inputs"], "every name index and dictionary index",
  "The tests convert the names of one font.",
  [C+"index/names.rs", C+"index/dictionaries.rs"], [("conversion", C+"index/names.rs")],
  observe=["Vec<String>: TryFrom<Names>", "Vec<Operations>: TryFrom<&Dictionaries>"])
with open(sys.argv[1], "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
