"""Which obligations decide which property, and what is assumed."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# A proof that must fail: it would succeed if the assumptions contradicted one another.
CANARY = """
verus! {
pub mod vx_canary {
    use vstd::prelude::*;
    use crate::prelude::*;
    broadcast use crate::prelude::group_abs;
    pub proof fn canary_one() {
        broadcast use crate::std_model::group_f32;
        assert(false); //@canary
    }
}
} // verus!
"""

FIRST = ["compact1"]
SPEC1 = ["prelude", "std_model", "tape", "io", "spec1", "spec_font", "spec_dict", "tables"]
SPEC2 = ["prelude", "std_model", "tape", "io", "spec1", "spec2", "type2", "type2::number", "type2::operation",
         "type2::program"]
COMPACT1 = SPEC1 + [
    "compact1", "compact1::character_set", "compact1::encoding", "compact1::font_set",
    "compact1::font_set::character_id_keyed", "compact1::font_set::character_name_keyed", "compact1::header",
    "compact1::index", "compact1::index::character_strings", "compact1::index::dictionaries",
    "compact1::index::names", "compact1::index::strings", "compact1::index::subroutines", "compact1::number",
    "compact1::offset", "compact1::operation",
]

MOVES = ["RMoveTo", "HMoveTo", "VMoveTo"]
LINES = MOVES + ["RLineTo", "HLineTo", "VLineTo"]
CURVES = ["RRCurveTo", "HHCurveTo", "VVCurveTo", "HVCurveTo", "VHCurveTo", "RCurveLine", "RLineCurve",
          "Flex", "Flex1", "HFlex", "HFlex1"]
STEMS = ["HStem", "VStem", "HStemHM", "VStemHM"]
MASKS = ["HintMask", "CntrMask"]
ARITHMETIC = ["Abs", "Neg", "Sqrt", "Drop", "Dup", "Index", "Add", "Sub", "Div", "Mul", "Exch", "And", "Or",
              "Not", "Eq", "IfElse", "Roll"]
CALLS = ["CallSubr", "CallGSubr", "Return"]
STEP = r"type2::program::Program::step"
GROUP_ARMS = {
    "lines": LINES, "curves": CURVES[:3], "alternating": CURVES[3:5], "mixed": CURVES[5:7], "flexes": CURVES[7:],
    "hints": STEMS + MASKS, "end": ["EndChar"], "unary": ARITHMETIC[:3], "stack": ARITHMETIC[3:6],
    "sums": ["Add", "Sub"], "products": ["Div", "Mul"], "exchange": ["Exch"],
    "logic": ARITHMETIC[11:13], "comparison": ARITHMETIC[13:16], "roll": ["Roll"], "calls": CALLS,
}
ALL_GROUPS = ",".join(GROUP_ARMS)
FUNCTIONAL = ("functional", "undecided")

CS = r"compact1::character_set::"
EN = r"compact1::encoding::"
FS = r"compact1::font_set::"
IX = r"compact1::index::"

# name: (groups of Program::step, modules, [(function, arms or None, kinds)])
PLANS = {
    "C01": ("none", COMPACT1, [(r"compact1::.*", None, ("safety",))]),
    "C02": ("none", COMPACT1, [
        (IX + r"<Index as value::Read>::read", None, FUNCTIONAL),
        (IX + r"<Index as default::Default>::default", None, FUNCTIONAL),
        (IX + r"(names|strings|subroutines|dictionaries)::<\w+ as value::Read>::read", None, FUNCTIONAL),
        (IX + r"character_strings::<CharacterStrings as walue::Read>::read", None, FUNCTIONAL),
        (IX + r"subroutines::<Subroutines as default::Default>::default", None, FUNCTIONAL),
        (r"compact1::offset::.*", None, FUNCTIONAL)]),
    "C03": ("none", COMPACT1, [(r"compact1::number::.*", None, FUNCTIONAL)]),
    "C04": ("none", COMPACT1, [
        (r"compact1::operation::<Operations as value::Read>::read", None, FUNCTIONAL),
        (r"compact1::operation::<Operation as value::Read>::read", None, FUNCTIONAL),
        (r"compact1::operation::Operator::from", None, FUNCTIONAL)]),
    "C05": ("none", COMPACT1, [
        (r"compact1::operation::Operations::.*", None, FUNCTIONAL),
        (r"compact1::operation::<Operations as default::Default>::default", None, FUNCTIONAL),
        (r"compact1::operation::Operator::default", None, FUNCTIONAL)]),
    "C06": ("none", COMPACT1, [(CS + r"<\w+ as (value|walue)::Read>::read", None, FUNCTIONAL),
                               (CS + r"<\w+ as default::Default>::default", None, FUNCTIONAL)]),
    "C07": ("none", COMPACT1, [(CS + r"(\w+::get|get_\w+)", None, FUNCTIONAL)]),
    "C08": ("none", COMPACT1, [(EN + r".*", None, FUNCTIONAL)]),
    "C09": ("none", COMPACT1, [
        (IX + r"strings::(Strings::get|get_standard_string)", None, FUNCTIONAL),
        (r"compact1::<StringID as TryFrom<Number>>::try_from", None, FUNCTIONAL)]),
    "C10": ("none", COMPACT1, [
        (FS + r"<FontSet as value::Read>::read", None, FUNCTIONAL), (FS + r"FontSet::count", None, FUNCTIONAL),
        (r"compact1::header::.*", None, FUNCTIONAL)]),
    "C11": ("none", COMPACT1 + ["spec_place"], [
        (FS + r"(<FontSet as value::Read>::read|FontSet::count)", None, FUNCTIONAL),
        (FS + r"character_(name|id)_keyed::<Record(Inner)? as walue::Read>::read", None, FUNCTIONAL)]),
    "C12": ("none", COMPACT1, [
        (FS + r"character_name_keyed::<Record as walue::Read>::read", None, FUNCTIONAL),
        (FS + r"character_id_keyed::<RecordInner as walue::Read>::read", None, FUNCTIONAL)]),
    "C13": ("none", COMPACT1, [
        (FS + r"<Record as walue::Read>::read", None, FUNCTIONAL),
        (FS + r"character_id_keyed::<(Record|Encoding\d?|Range3) as .*", None, FUNCTIONAL)]),
    "C14": ("lines", SPEC2, [
        (r"type2::number::read", None, FUNCTIONAL), (r"type2::operation::.*", None, FUNCTIONAL),
        (r"type2::program::Routine::take_operand", None, FUNCTIONAL), (STEP, ["", "_"], FUNCTIONAL)]),
    "C15": ("unary,stack,sums,products,exchange,logic,comparison,roll", SPEC2, [(STEP, ARITHMETIC, FUNCTIONAL)]),
    "C16": ("lines,curves,alternating,mixed,flexes,hints", SPEC2, [(STEP, LINES + CURVES + STEMS, FUNCTIONAL)]),
    "C17": ("hints", SPEC2, [(STEP, STEMS + MASKS, FUNCTIONAL)]),
    "C18": ("lines,curves,alternating,mixed,flexes,hints,end", SPEC2, [
        (STEP, LINES + CURVES + STEMS + MASKS + ["EndChar"], FUNCTIONAL),
        (r"type2::program::Program::(width|new)", None, FUNCTIONAL)]),
    "C19": ("calls,end", SPEC2, [
        (STEP, CALLS + ["EndChar", ""], FUNCTIONAL), (r"type2::program::bias", None, FUNCTIONAL),
        (r"type2::program::Routine::(new|done)", None, FUNCTIONAL),
        (r"type2::program::Program::(new|next)", None, FUNCTIONAL)]),
    "C20": (ALL_GROUPS, SPEC2, [(r"type2::.*", None, ("safety",)),
                                (r"type2::program::Program::next", None, FUNCTIONAL)]),
    "C21": ("none", COMPACT1, [(r"compact1::.*", None, ("fault",))]),
    "C22": ("none", COMPACT1, [
        (IX + r"names::<Vec<String> as TryFrom<Names>>::try_from", None, FUNCTIONAL),
        (IX + r"dictionaries::(<Vec<Operations> as TryFrom<&Dictionaries>>::try_from|Dictionaries::get)", None,
         FUNCTIONAL)]),
}


def load():
    properties = {}
    with open(os.path.join(HERE, "properties.jsonl")) as file:
        for line in file:
            entry = json.loads(line)
            groups, modules, core = PLANS[entry["id"]]
            properties[entry["id"]] = {
                "title": entry["title"], "groups": groups, "modules": modules, "core": core,
            }
    return properties


PROPERTIES = load()


def core_key(name, key):
    return any(re.fullmatch(pattern, key) for pattern, _, _ in PROPERTIES[name]["core"])


def concerns(name, entry):
    """Whether a failed obligation is one that decides a property."""
    for pattern, arms, kinds in PROPERTIES[name]["core"]:
        if not re.fullmatch(pattern, entry["function"]) or entry["kind"] not in kinds:
            continue
        if arms is None or not entry["group"]:
            return True
        if entry["arms"]:
            if any(arm in arms for arm in entry["arms"].split()):
                return True
        elif "" in arms or set(GROUP_ARMS[entry["group"]]) & set(arms):
            # Outside of the arms, what is common to all of them.
            return True
    return False


def weakened(entry, proof):
    """Whether a failure may be due to annotations that have lost their place."""
    report = proof["report"]
    if entry["kind"] == "undecided":
        return True
    for note in report["structural"]:
        key = note.split(": ", 1)[0]
        if key == entry["function"] or key not in report["under_contract"]:
            return True
    return any(key.split("::")[0] == entry["function"].split("::")[0] for key in report["without_contract"])


def assumed(lines):
    """What the generated crate assumes without proof, found by scanning it."""
    found = {"external_body": [], "assume": [], "assume_specification": [], "axiom": []}
    for i, line in enumerate(lines):
        bare = line.strip()
        if bare.startswith("//"):
            continue
        if "external_body" in bare:
            rest = " ".join(lines[i:i + 4])
            match = re.search(r"(?:fn|struct)\s+(\w+)", rest)
            name = match.group(1) if match else bare[:60]
            # The original of a split function is verified in the form of its copies.
            if name not in found["external_body"]:
                found["external_body"].append(name)
        if re.search(r"\bassume\(", bare):
            found["assume"].append(bare[:120])
        if "assume_specification" in bare:
            found["assume_specification"].append(bare[:120])
        match = re.search(r"axiom fn (\w+)", bare)
        if match:
            found["axiom"].append(match.group(1))
    return {kind: sorted(set(names)) for kind, names in found.items()}


def trusted_base(proof):
    base = [
        "Verus and Z3",
        "the extraction of /repo's expanded source (extract/), with the rewrite rules counted below",
        "the model of std and typeface in proof/prelude/10_prelude.rs and 20_std.rs",
    ]
    for kind, names in proof["assumed"].items():
        for name in names:
            base.append(f"{kind}: {name}")
    return base


COMMON = [
    "typeface 0.5's tape, value and walue primitives behave as their contracts in the prelude state",
    "error messages are dropped; only the kind of an error is kept",
    "the expanded text is parsed again, so hygiene of local macro variables is taken from their names",
    "memory is sufficient for what the contracts let the code allocate, and usize has 64 bits",
]
FIRST_ASSUMPTIONS = [
    "positions in the stream are below 2^63",
    "the derived Hash and Eq of operators are lawful, and HashMap then behaves as a map",
    "f32 parsing of a decimal text is a function of the text",
]
SECOND_ASSUMPTIONS = [
    "f32 arithmetic is a deterministic function of its operands",
    "the number of stem hints of one program fits in usize",
]


def assumptions(name):
    first = int(name[1:]) not in range(14, 21)
    return COMMON + (FIRST_ASSUMPTIONS if first else SECOND_ASSUMPTIONS)
