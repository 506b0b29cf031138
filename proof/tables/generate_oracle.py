"""Writes the tables of data.py for the oracle: generate_oracle.py > ../../oracle/src/tables.rs"""
from data import *

print("//! Generated by proof/tables/generate_oracle.py from proof/tables/data.py (TN5176, appendices A to C).")
print("pub const STANDARD_STRINGS: [&str; 391] = [")
for s in STANDARD_STRINGS:
    print(f'    "{s}",')
print("];")
for name, table in (("STANDARD_ENCODING", STANDARD_ENCODING), ("EXPERT_ENCODING", EXPERT_ENCODING),
                    ("ISO_ADOBE", ISO_ADOBE), ("EXPERT", EXPERT), ("EXPERT_SUBSET", EXPERT_SUBSET)):
    print(f"pub const {name}: [u16; {len(table)}] = {table};")
