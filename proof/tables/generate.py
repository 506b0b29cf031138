"""Writes the tables of data.py as specification functions: generate.py > ../prelude/31_tables.rs"""
from data import *

def runs(table, skip=None):
    """Maximal runs [a, b) of keys whose values ascend one by one or are constant."""
    out, i, n = [], 0, len(table)
    while i < n:
        j = i + 1
        while j < n and table[j] - table[j - 1] == 1 and table[i] != 0:
            j += 1
        kind = "up"
        if table[i] == 0:
            kind = "zero"
            while j < n and table[j] == 0:
                j += 1
        out.append((i, j, table[i], kind))
        i = j
    return out

print("""// Generated by proof/tables/generate.py from proof/tables/data.py (TN5176, appendices A to C).
verus! {

pub mod tables {
    use vstd::prelude::*;

    pub open spec fn standard_string(id: int) -> &'static str {""")
for i, s in enumerate(STANDARD_STRINGS):
    print(f"        {'else ' if i else ''}if id == {i} {{ \"{s}\" }}")
print("        else { \"\" }\n    }\n")
for name, table in (("standard_encoding", STANDARD_ENCODING), ("expert_encoding", EXPERT_ENCODING)):
    print(f"    // The string identifier of a code from 0 to 255.\n    pub open spec fn {name}(code: int) -> int {{")
    for k, (a, b, v, kind) in enumerate(runs(table)):
        value = "0" if kind == "zero" else (f"{v}" if b == a + 1 else f"code + {v - a}" if v >= a else f"code - {a - v}")
        print(f"        {'else ' if k else ''}if {a} <= code < {b} {{ {value} }}")
    print("        else { 0 }\n    }\n")
for name, table in (("iso_adobe", ISO_ADOBE), ("expert", EXPERT), ("expert_subset", EXPERT_SUBSET)):
    members = sorted(set(table) - {0})
    print(f"    // The members of a predefined character set other than .notdef.\n    pub open spec fn {name}(id: int) -> bool {{")
    i = 0
    parts = []
    while i < len(members):
        j = i
        while j + 1 < len(members) and members[j + 1] == members[j] + 1:
            j += 1
        parts.append(f"{members[i]} <= id <= {members[j]}" if j > i else f"id == {members[i]}")
        i = j + 1
    for x in parts:
        print(f"        ||| {x}")
    print("    }\n")
print("}\n\n} // verus!")
