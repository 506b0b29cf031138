// Character sets, encodings and font sets (TN5176 sections 12 to 19).
verus! {

pub mod spec_font {
    use vstd::prelude::*;
    use crate::prelude::*;
    use crate::spec1::*;
    use crate::compact1::number::Number;
    use crate::compact1::operation::Operator;
    use crate::compact1::header::Header;

    // ---- character sets (section 13)

    pub ghost enum CharsetV {
        IsoAdobe,
        Expert,
        ExpertSubset,
        Identifiers(u8, Seq<u16>),
        Ranges(u8, Seq<RangeV>),
    }

    // A range of identifiers from a first one on, and the number of those left.
    pub ghost struct RangeV { pub first: int, pub left: int }

    // A range whose number of identifiers left takes the given number of bytes.
    pub open spec fn range_dec(data: Seq<u8>, pos: int, size: int) -> Dec<RangeV> {
        if fits(data, pos, 2 + size) {
            Dec::Good(RangeV { first: be16(data, pos), left: be(data, pos + 2, size) }, pos + 2 + size)
        } else {
            Dec::Eof
        }
    }

    // Ranges that cover exactly the given number of glyphs.
    pub open spec fn ranges_dec(data: Seq<u8>, pos: int, size: int, need: int, ranges: Seq<RangeV>) -> Dec<Seq<RangeV>>
        decreases (if need > 0 { need } else { 0 })
    {
        if need == 0 {
            Dec::Good(ranges, pos)
        } else if need < 0 {
            Dec::Bad
        } else if !fits(data, pos, 2 + size) {
            Dec::Eof
        } else {
            let left = be(data, pos + 2, size);
            if left < 0 { Dec::Open } else {
                ranges_dec(data, pos + 2 + size, size, need - (left + 1), ranges.push(RangeV { first: be16(data, pos), left }))
            }
        }
    }

    pub open spec fn charset0_dec(data: Seq<u8>, pos: int, glyph_count: int) -> Dec<CharsetV> {
        if !fits(data, pos, 1) {
            Dec::Eof
        } else if data[pos] != 0 || glyph_count == 0 {
            Dec::Bad
        } else if glyph_count > 1 && !fits(data, pos + 1, 2 * (glyph_count - 1)) {
            Dec::Eof
        } else {
            Dec::Good(
                CharsetV::Identifiers(0, Seq::new((glyph_count - 1) as nat, |i: int| be16(data, pos + 1 + 2 * i) as u16)),
                pos + 1 + 2 * (glyph_count - 1),
            )
        }
    }

    // Format 1 or 2.
    pub open spec fn charset_ranges_dec(data: Seq<u8>, pos: int, glyph_count: int, format: u8) -> Dec<CharsetV> {
        if !fits(data, pos, 1) {
            Dec::Eof
        } else if data[pos] != format {
            Dec::Bad
        } else {
            match ranges_dec(data, pos + 1, format as int, glyph_count - 1, seq![]) {
                Dec::Good(ranges, p) => Dec::Good(CharsetV::Ranges(format, ranges), p),
                Dec::Eof => Dec::Eof,
                _ => Dec::Bad,
            }
        }
    }

    pub open spec fn charset_dec(data: Seq<u8>, pos: int, glyph_count: int) -> Dec<CharsetV> {
        if !fits(data, pos, 1) { Dec::Eof }
        else if data[pos] == 0 { charset0_dec(data, pos, glyph_count) }
        else if data[pos] == 1 { charset_ranges_dec(data, pos, glyph_count, 1) }
        else if data[pos] == 2 { charset_ranges_dec(data, pos, glyph_count, 2) }
        else { Dec::Bad }
    }

    // The name under an identifier in a predefined set.
    pub open spec fn named(name: Option<&'static str>, member: bool, id: int) -> bool {
        if member { name is Some && name->Some_0@ == crate::tables::standard_string(id)@ } else { name is None }
    }

    // ---- encodings (section 12)

    pub ghost enum EncodingV {
        Standard,
        Expert,
        Codes(Seq<u8>),
        // The first code and the number left.
        Ranges(Seq<(int, int)>),
        // The format, and codes with string identifiers.
        Supplements(u8, Seq<(int, int)>),
        // Not the result of reading one.
        Other,
    }

    // Each range is its first code and the number left.
    pub open spec fn code_ranges(data: Seq<u8>, pos: int, count: nat) -> Seq<(int, int)> {
        Seq::new(count, |i: int| (data[pos + 2 * i] as int, data[pos + 2 * i + 1] as int))
    }

    // Each supplement is a code and a string identifier.
    pub open spec fn supplements(data: Seq<u8>, pos: int, count: nat) -> Seq<(int, int)> {
        Seq::new(count, |i: int| (data[pos + 3 * i] as int, be16(data, pos + 3 * i + 1)))
    }

    pub open spec fn encoding0_dec(data: Seq<u8>, pos: int) -> Dec<EncodingV> {
        if !fits(data, pos, 1) {
            Dec::Eof
        } else if data[pos] != 0 {
            Dec::Bad
        } else if !fits(data, pos, 2) || !fits(data, pos, 2 + data[pos + 1]) {
            Dec::Eof
        } else {
            let count = data[pos + 1] as int;
            Dec::Good(EncodingV::Codes(Seq::new(count as nat, |i: int| data[pos + 2 + i])), pos + 2 + count)
        }
    }

    pub open spec fn encoding1_dec(data: Seq<u8>, pos: int) -> Dec<EncodingV> {
        if !fits(data, pos, 1) {
            Dec::Eof
        } else if data[pos] != 1 {
            Dec::Bad
        } else if !fits(data, pos, 2) || !fits(data, pos, 2 + 2 * data[pos + 1]) {
            Dec::Eof
        } else {
            let count = data[pos + 1] as int;
            Dec::Good(EncodingV::Ranges(code_ranges(data, pos + 2, count as nat)), pos + 2 + 2 * count)
        }
    }

    // The supplements as the code expects them, right behind the format; see the known findings.
    pub open spec fn supplement_dec(data: Seq<u8>, pos: int) -> Dec<EncodingV> {
        if !fits(data, pos, 2) || !fits(data, pos, 2 + 3 * data[pos + 1]) {
            Dec::Eof
        } else {
            let count = data[pos + 1] as int;
            Dec::Good(
                EncodingV::Supplements(data[pos], supplements(data, pos + 2, count as nat)),
                pos + 2 + 3 * count,
            )
        }
    }

    pub open spec fn encoding_dec(data: Seq<u8>, pos: int) -> Dec<EncodingV> {
        if !fits(data, pos, 1) { Dec::Eof }
        else if data[pos] == 0 { encoding0_dec(data, pos) }
        else if data[pos] == 1 { encoding1_dec(data, pos) }
        else if data[pos] >= 128 { supplement_dec(data, pos) }
        else { Dec::Bad }
    }

    // ---- glyph-to-dictionary mappings (section 19)

    pub ghost enum MappingV {
        // The dictionary of each glyph.
        Direct(Seq<u8>),
        // The first glyph and the dictionary of each range, and the number of glyphs.
        Ranges(Seq<(int, int)>, int),
        // Not the result of reading one.
        Other,
    }

    // Each range is its first glyph and its dictionary.
    pub open spec fn glyph_ranges(data: Seq<u8>, pos: int, count: nat) -> Seq<(int, int)> {
        Seq::new(count, |i: int| (be16(data, pos + 3 * i), data[pos + 3 * i + 2] as int))
    }

    pub open spec fn mapping0_dec(data: Seq<u8>, pos: int, glyph_count: int) -> Dec<MappingV> {
        if !fits(data, pos, 1) {
            Dec::Eof
        } else if data[pos] != 0 {
            Dec::Bad
        } else if glyph_count > 0 && !fits(data, pos + 1, glyph_count) {
            Dec::Eof
        } else {
            Dec::Good(MappingV::Direct(Seq::new(glyph_count as nat, |i: int| data[pos + 1 + i])), pos + 1 + glyph_count)
        }
    }

    pub open spec fn mapping3_dec(data: Seq<u8>, pos: int) -> Dec<MappingV> {
        if !fits(data, pos, 1) {
            Dec::Eof
        } else if data[pos] != 3 {
            Dec::Bad
        } else if !fits(data, pos, 3) || !fits(data, pos, 3 + 3 * be16(data, pos + 1) + 2) {
            Dec::Eof
        } else {
            let count = be16(data, pos + 1);
            Dec::Good(
                MappingV::Ranges(glyph_ranges(data, pos + 3, count as nat), be16(data, pos + 3 + 3 * count)),
                pos + 3 + 3 * count + 2,
            )
        }
    }

    pub open spec fn mapping_dec(data: Seq<u8>, pos: int, glyph_count: int) -> Dec<MappingV> {
        if !fits(data, pos, 1) { Dec::Eof }
        else if data[pos] == 0 { mapping0_dec(data, pos, glyph_count) }
        else if data[pos] == 3 { mapping3_dec(data, pos) }
        else { Dec::Bad }
    }

    // ---- dictionaries of an index

    pub open spec fn dict_at(objects: IndexV, i: int) -> Dec<Dict> {
        dict_dec(objects.data[i], 0, Map::empty())
    }

    pub open spec fn dicts_valid(objects: IndexV) -> bool {
        forall|i: int| 0 <= i < objects.data.len() ==> (#[trigger] dict_at(objects, i)) is Somewhere
    }

    pub open spec fn dicts(objects: IndexV) -> Seq<Dict> {
        Seq::new(objects.data.len(), |i: int| dict_at(objects, i)->Somewhere_0)
    }

    // ---- private dictionaries and subroutines (sections 15 and 16)

    pub ghost struct PrivateV { pub operations: Dict, pub subroutines: IndexV }

    // Size and offset.
    pub open spec fn private_place(dict: Dict) -> Option<(int, int)> {
        match dict_double(dict, Operator::Private) {
            Some((Number::Integer(size), Number::Integer(offset))) => if size >= 0 && offset >= 0 { Some((size as int, offset as int)) } else { None },
            _ => None,
        }
    }

    pub open spec fn private_bytes(data: Seq<u8>, base: int, place: (int, int)) -> Seq<u8> {
        Seq::new(place.0 as nat, |i: int| data[base + place.1 + i])
    }

    pub open spec fn subroutines_dec(data: Seq<u8>, base: int, offset: int, dict: Dict) -> Option<IndexV> {
        match dict_single(dict, Operator::Subrs) {
            None => Some(index_empty()),
            Some(Number::Integer(more)) => if 0 <= offset + more <= i32::MAX {
                match index_dec(data, base + offset + more) {
                    Dec::Good(index, _) => Some(index),
                    _ => None,
                }
            } else {
                None
            },
            _ => None,
        }
    }

    pub open spec fn private_value(data: Seq<u8>, base: int, dict: Dict) -> Option<PrivateV> {
        match private_place(dict) {
            Some(place) => if place.0 == 0 || fits(data, base + place.1, place.0) {
                match dict_dec(private_bytes(data, base, place), 0, Map::empty()) {
                    Dec::Somewhere(operations) => match subroutines_dec(data, base, place.1, operations) {
                        Some(subroutines) => Some(PrivateV { operations, subroutines }),
                        None => None,
                    },
                    _ => None,
                }
            } else {
                None
            },
            None => None,
        }
    }

    pub open spec fn private_dec(data: Seq<u8>, base: int, dict: Dict) -> Dec<PrivateV> {
        match private_value(data, base, dict) { Some(value) => Dec::Somewhere(value), None => Dec::Fail }
    }

    // ---- fonts keyed by character identifiers (section 18)

    pub ghost struct KeyedV {
        pub registry: u16,
        pub ordering: u16,
        pub supplement: Number,
        pub mapping: MappingV,
        pub operations: Seq<Dict>,
        pub records: Seq<PrivateV>,
    }

    pub open spec fn privates_valid(data: Seq<u8>, base: int, dicts: Seq<Dict>) -> bool {
        forall|i: int| 0 <= i < dicts.len() ==> (#[trigger] private_value(data, base, dicts[i])) is Some
    }

    pub open spec fn privates(data: Seq<u8>, base: int, dicts: Seq<Dict>) -> Seq<PrivateV> {
        Seq::new(dicts.len(), |i: int| private_value(data, base, dicts[i])->Some_0)
    }

    pub open spec fn mapping_value(data: Seq<u8>, base: int, dict: Dict, glyph_count: int) -> Option<MappingV> {
        match natural(dict_single(dict, Operator::FDSelect)) {
            Some(offset) => match mapping_dec(data, base + offset, glyph_count) {
                Dec::Good(mapping, _) => Some(mapping),
                _ => None,
            },
            None => None,
        }
    }

    pub open spec fn keyed_value(data: Seq<u8>, base: int, dict: Dict, glyph_count: int) -> Option<KeyedV> {
        match (dict_get(dict, Operator::ROS), mapping_value(data, base, dict, glyph_count), natural(dict_single(dict, Operator::FDArray))) {
            (Some(operands), Some(mapping), Some(offset)) => match index_dec(data, base + offset) {
                Dec::Good(index, _) => {
                    if operands.len() == 3 && is_string_id(operands[0]) && is_string_id(operands[1])
                        && dicts_valid(index) && privates_valid(data, base, dicts(index))
                    {
                        Some(KeyedV {
                            registry: string_id(operands[0]),
                            ordering: string_id(operands[1]),
                            supplement: operands[2],
                            mapping,
                            operations: dicts(index),
                            records: privates(data, base, dicts(index)),
                        })
                    } else {
                        None
                    }
                },
                _ => None,
            },
            _ => None,
        }
    }

    pub open spec fn keyed_dec(data: Seq<u8>, base: int, dict: Dict, glyph_count: int) -> Dec<KeyedV> {
        match keyed_value(data, base, dict, glyph_count) { Some(value) => Dec::Somewhere(value), None => Dec::Fail }
    }

    pub ghost enum RecordV { Named(PrivateV), Keyed(KeyedV) }

    pub open spec fn record_value(data: Seq<u8>, base: int, dict: Dict, glyph_count: int) -> Option<RecordV> {
        if dict.contains_key(Operator::ROS) {
            match keyed_value(data, base, dict, glyph_count) { Some(value) => Some(RecordV::Keyed(value)), None => None }
        } else {
            match private_value(data, base, dict) { Some(value) => Some(RecordV::Named(value)), None => None }
        }
    }

    pub open spec fn record_dec(data: Seq<u8>, base: int, dict: Dict, glyph_count: int) -> Dec<RecordV> {
        match record_value(data, base, dict, glyph_count) { Some(value) => Dec::Somewhere(value), None => Dec::Fail }
    }

    // ---- font sets

    pub ghost struct FontV {
        pub character_strings: IndexV,
        pub character_set: CharsetV,
        pub encoding: EncodingV,
        pub record: RecordV,
    }

    pub ghost struct FontSetV {
        pub header: Header,
        pub names: IndexV,
        pub operations: Seq<Dict>,
        pub strings: IndexV,
        pub subroutines: IndexV,
        pub encodings: Seq<EncodingV>,
        pub character_strings: Seq<IndexV>,
        pub character_sets: Seq<CharsetV>,
        pub records: Seq<RecordV>,
    }

    pub open spec fn character_strings_value(data: Seq<u8>, base: int, dict: Dict) -> Option<IndexV> {
        match (natural(dict_single(dict, Operator::CharStrings)), natural(dict_single(dict, Operator::CharStringType))) {
            (Some(offset), Some(kind)) => if kind == 2 {
                match index_dec(data, base + offset) {
                    Dec::Good(index, _) => Some(index),
                    _ => None,
                }
            } else {
                None
            },
            _ => None,
        }
    }

    pub open spec fn character_set_value(data: Seq<u8>, base: int, dict: Dict, glyph_count: int) -> Option<CharsetV> {
        match natural(dict_single(dict, Operator::CharSet)) {
            Some(offset) => if offset == 0 {
                Some(CharsetV::IsoAdobe)
            } else if offset == 1 {
                Some(CharsetV::Expert)
            } else if offset == 2 {
                Some(CharsetV::ExpertSubset)
            } else {
                match charset_dec(data, base + offset, glyph_count) {
                    Dec::Good(value, _) => Some(value),
                    _ => None,
                }
            },
            None => None,
        }
    }

    pub open spec fn encoding_value(data: Seq<u8>, base: int, dict: Dict) -> Option<EncodingV> {
        match natural(dict_single(dict, Operator::Encoding)) {
            Some(offset) => if offset == 0 {
                Some(EncodingV::Standard)
            } else if offset == 1 {
                Some(EncodingV::Expert)
            } else {
                match encoding_dec(data, base + offset) {
                    Dec::Good(value, _) => Some(value),
                    _ => None,
                }
            },
            None => None,
        }
    }

    pub open spec fn font_value(data: Seq<u8>, base: int, dict: Dict) -> Option<FontV> {
        match character_strings_value(data, base, dict) {
            Some(character_strings) => match (
                character_set_value(data, base, dict, character_strings.count),
                encoding_value(data, base, dict),
                record_value(data, base, dict, character_strings.count),
            ) {
                (Some(character_set), Some(encoding), Some(record)) => Some(FontV { character_strings, character_set, encoding, record }),
                _ => None,
            },
            None => None,
        }
    }

    pub open spec fn fonts_valid(data: Seq<u8>, base: int, dicts: Seq<Dict>) -> bool {
        forall|i: int| 0 <= i < dicts.len() ==> (#[trigger] font_value(data, base, dicts[i])) is Some
    }

    pub open spec fn font_set_of(data: Seq<u8>, base: int, header: Header, names: IndexV, operations: Seq<Dict>, strings: IndexV, subroutines: IndexV) -> Option<FontSetV> {
        if fonts_valid(data, base, operations) {
            let n = operations.len();
            let font = |i: int| font_value(data, base, operations[i])->Some_0;
            Some(FontSetV {
                header,
                names,
                operations,
                strings,
                subroutines,
                encodings: Seq::new(n, |i: int| font(i).encoding),
                character_strings: Seq::new(n, |i: int| font(i).character_strings),
                character_sets: Seq::new(n, |i: int| font(i).character_set),
                records: Seq::new(n, |i: int| font(i).record),
            })
        } else {
            None
        }
    }

    #[verifier::opaque]
    pub open spec fn font_set_value(data: Seq<u8>, base: int) -> Option<FontSetV> {
        match header_dec(data, base) {
            Dec::Good(header, _) => match index_dec(data, base + header.header_size) {
                Dec::Good(names, p) => match index_dec(data, p) {
                    Dec::Good(dictionaries, p) => match index_dec(data, p) {
                        Dec::Good(strings, p) => match index_dec(data, p) {
                            Dec::Good(subroutines, _) => {
                                if dicts_valid(dictionaries) {
                                    font_set_of(data, base, header, names, dicts(dictionaries), strings, subroutines)
                                } else {
                                    None
                                }
                            },
                            _ => None,
                        },
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        }
    }

    pub open spec fn font_set_dec(data: Seq<u8>, base: int) -> Dec<FontSetV> {
        match font_set_value(data, base) { Some(value) => Dec::Somewhere(value), None => Dec::Fail }
    }

    // The number of names.
    pub open spec fn count_dec(data: Seq<u8>, base: int) -> Dec<usize> {
        match header_dec(data, base) {
            Dec::Good(header, _) => if fits(data, base + header.header_size, 2) {
                Dec::Somewhere(be16(data, base + header.header_size) as usize)
            } else {
                Dec::Eof
            },
            _ => Dec::Eof,
        }
    }

    // ---- lemmas

    pub proof fn lemma_private(data: Seq<u8>, base: int, dict: Dict)
        requires 0 <= base
        ensures match private_place(dict) {
            Some(place) => dec_seq::<u8>(data, base + place.1, place.0 as nat) == (if place.0 == 0 || fits(data, base + place.1, place.0) {
                Dec::<Seq<u8>>::Good(private_bytes(data, base, place), base + place.1 + place.0)
            } else {
                Dec::<Seq<u8>>::Eof
            }) && (dict_dec(private_bytes(data, base, place), 0, Map::empty()) is Somewhere || dict_dec(private_bytes(data, base, place), 0, Map::empty()) is Bad),
            None => true,
        }
    {
        match private_place(dict) {
            Some(place) => {
                lemma_dec_bytes(data, base + place.1, place.0 as nat);
                lemma_dict_decided(private_bytes(data, base, place), 0, Map::empty());
            }
            None => {}
        }
    }
}

} // verus!
