// What a font set decodes to depends on the bytes from its start on only (property C11): decoding at
// a position of the data is decoding at the start of the rest of the data.
verus! {

pub mod spec_place {
    use vstd::prelude::*;
    use crate::prelude::*;
    use crate::spec1::*;
    use crate::spec_font::*;

    // The data from a position on.
    pub open spec fn rest(data: Seq<u8>, base: int) -> Seq<u8> { data.subrange(base, data.len() as int) }

    // The same outcome further on.
    pub open spec fn further<V>(outcome: Dec<V>, base: int) -> Dec<V> {
        match outcome { Dec::Good(value, pos) => Dec::Good(value, pos + base), other => other }
    }

    pub proof fn lemma_number(data: Seq<u8>, base: int, pos: int, size: int)
        requires 0 <= base <= data.len(), 1 <= size <= 4
        ensures
            fits(rest(data, base), pos, size) ==> fits(data, base + pos, size),
            fits(data, base + pos, size) && 0 <= pos ==> fits(rest(data, base), pos, size),
            fits(rest(data, base), pos, size) ==> be(rest(data, base), pos, size) == be(data, base + pos, size),
    {
    }

    // The offsets of an index that has all of them.
    pub proof fn lemma_offsets(data: Seq<u8>, base: int, pos: int, i: int)
        requires
            0 <= base <= data.len(), 0 <= pos, fits(rest(data, base), pos, 3), 1 <= rest(data, base)[pos + 2] <= 4,
            fits(rest(data, base), pos + 3, (be16(rest(data, base), pos) + 1) * rest(data, base)[pos + 2] as int),
            0 <= i <= be16(rest(data, base), pos),
        ensures
            index_offset(data, base + pos, i) == index_offset(rest(data, base), pos, i),
    {
        reveal(index_offset);
        let r = rest(data, base);
        let size = r[pos + 2] as int;
        assert(size == data[base + pos + 2]);
        let count = be16(r, pos);
        lemma_mul_le(i + 1, count + 1, size);
        lemma_mul_le(0, i, size);
        lemma_step(i, size);
        lemma_number(data, base, pos + 3 + i * size, size);
        assert(base + pos + 3 + i * size == base + (pos + 3 + i * size));
    }

    pub proof fn lemma_index_well_formed(data: Seq<u8>, base: int, pos: int)
        requires
            0 <= base <= data.len(), 0 <= pos, fits(rest(data, base), pos, 2),
        ensures
            index_well_formed(data, base + pos) == index_well_formed(rest(data, base), pos),
            index_well_formed(rest(data, base), pos) ==> index_base(data, base + pos) == base + index_base(rest(data, base), pos)
                && fits(rest(data, base), pos, 3) && 1 <= rest(data, base)[pos + 2] <= 4
                && fits(rest(data, base), pos + 3, (be16(rest(data, base), pos) + 1) * rest(data, base)[pos + 2] as int)
                && index_base(rest(data, base), pos) >= pos,
    {
        reveal(index_base);
        reveal(index_well_formed);
        let r = rest(data, base);
        let at = base + pos;
        if fits(r, pos, 3) {
            let count = be16(r, pos);
            let size = r[pos + 2] as int;
            assert(count == be16(data, at) && size == data[at + 2]);
            if 1 <= size <= 4 && fits(r, pos + 3, (count + 1) * size) {
                assert forall|i: int| 0 <= i <= count implies index_offset(data, at, i) == index_offset(r, pos, i) by {
                    lemma_offsets(data, base, pos, i);
                }
                assert(fits(data, at + 3, (count + 1) * size));
                lemma_mul_le(0, count + 1, size);
                if index_well_formed(r, pos) {
                    assert forall|i: int| 0 <= i < count implies #[trigger] index_offset(data, at, i) <= index_offset(data, at, i + 1) by {
                        assert(index_offset(r, pos, i) <= index_offset(r, pos, i + 1));
                    }
                    assert(index_well_formed(data, at));
                }
                if index_well_formed(data, at) {
                    assert forall|i: int| 0 <= i < count implies #[trigger] index_offset(r, pos, i) <= index_offset(r, pos, i + 1) by {
                        assert(index_offset(data, at, i) <= index_offset(data, at, i + 1));
                    }
                    assert(index_well_formed(r, pos));
                }
            }
        }
    }

    pub proof fn lemma_objects(data: Seq<u8>, base: int, pos: int, i: int)
        requires
            0 <= base <= data.len(), 0 <= pos, fits(rest(data, base), pos, 2),
            index_well_formed(rest(data, base), pos),
            0 <= i < be16(rest(data, base), pos),
        ensures
            index_object(data, base + pos, i) == index_object(rest(data, base), pos, i),
    {
        let r = rest(data, base);
        let at = base + pos;
        lemma_index_well_formed(data, base, pos);
        lemma_offsets(data, base, pos, i);
        lemma_offsets(data, base, pos, i + 1);
        lemma_index_ordered(r, pos, i + 1, be16(r, pos));
        lemma_index_offset(r, pos, i);
        lemma_index_offset(r, pos, i + 1);
        assert(index_offset(r, pos, i) <= index_offset(r, pos, i + 1)) by { reveal(index_well_formed); }
        assert(index_object(data, at, i) =~= index_object(r, pos, i));
    }

    pub proof fn lemma_index(data: Seq<u8>, base: int, pos: int)
        requires 0 <= base <= data.len(), 0 <= pos
        ensures index_dec(data, base + pos) == further(index_dec(rest(data, base), pos), base)
    {
        let r = rest(data, base);
        let at = base + pos;
        assert(fits(r, pos, 2) == fits(data, at, 2));
        if fits(r, pos, 2) {
            assert(be16(r, pos) == be16(data, at));
            let count = be16(r, pos);
            lemma_index_well_formed(data, base, pos);
            if count > 0 && index_well_formed(r, pos) {
                let one = index_dec(data, at)->Good_0;
                let other = index_dec(r, pos)->Good_0;
                assert(r[pos + 2] == data[at + 2]);
                assert forall|i: int| 0 <= i <= count implies index_offset(data, at, i) == index_offset(r, pos, i) by {
                    lemma_offsets(data, base, pos, i);
                }
                assert(one.offsets =~= other.offsets);
                assert forall|i: int| 0 <= i < count implies index_object(data, at, i) == index_object(r, pos, i) by {
                    lemma_objects(data, base, pos, i);
                }
                assert(one.data =~= other.data);
            }
        }
    }

    pub proof fn lemma_ranges(data: Seq<u8>, base: int, pos: int, size: int, need: int, ranges: Seq<RangeV>)
        requires 0 <= base <= data.len(), 0 <= pos, 1 <= size <= 4
        ensures ranges_dec(data, base + pos, size, need, ranges) == further(ranges_dec(rest(data, base), pos, size, need, ranges), base)
        decreases (if need > 0 { need } else { 0 })
    {
        let r = rest(data, base);
        if need > 0 && fits(r, pos, 2 + size) {
            lemma_number(data, base, pos + 2, size);
            let left = be(r, pos + 2, size);
            assert(be16(r, pos) == be16(data, base + pos));
            assert(base + pos + 2 == base + (pos + 2));
            assert(base + pos + 2 + size == base + (pos + 2 + size));
            if left >= 0 {
                lemma_ranges(data, base, pos + 2 + size, size, need - (left + 1), ranges.push(RangeV { first: be16(r, pos), left }));
            }
        }
    }

    pub proof fn lemma_charset(data: Seq<u8>, base: int, pos: int, glyph_count: int)
        requires 0 <= base <= data.len(), 0 <= pos, 0 <= glyph_count
        ensures charset_dec(data, base + pos, glyph_count) == further(charset_dec(rest(data, base), pos, glyph_count), base)
    {
        let r = rest(data, base);
        let at = base + pos;
        if fits(r, pos, 1) {
            assert(r[pos] == data[at]);
            if r[pos] == 0 {
                if glyph_count > 0 && (glyph_count == 1 || fits(r, pos + 1, 2 * (glyph_count - 1))) {
                    let n = (glyph_count - 1) as nat;
                    assert(Seq::new(n, |i: int| be16(data, at + 1 + 2 * i) as u16) =~= Seq::new(n, |i: int| be16(r, pos + 1 + 2 * i) as u16));
                }
            } else if r[pos] == 1 || r[pos] == 2 {
                assert(at + 1 == base + (pos + 1));
                lemma_ranges(data, base, pos + 1, r[pos] as int, glyph_count - 1, seq![]);
            }
        }
    }

    pub proof fn lemma_encoding(data: Seq<u8>, base: int, pos: int)
        requires 0 <= base <= data.len(), 0 <= pos
        ensures encoding_dec(data, base + pos) == further(encoding_dec(rest(data, base), pos), base)
    {
        let r = rest(data, base);
        let at = base + pos;
        if fits(r, pos, 1) {
            assert(r[pos] == data[at]);
            if fits(r, pos, 2) {
                assert(r[pos + 1] == data[at + 1]);
                let n = r[pos + 1] as nat;
                if fits(r, pos, 2 + n as int) {
                    assert(Seq::new(n, |i: int| data[at + 2 + i]) =~= Seq::new(n, |i: int| r[pos + 2 + i]));
                }
                if fits(r, pos, 2 + 2 * n as int) {
                    assert(code_ranges(data, at + 2, n) =~= code_ranges(r, pos + 2, n));
                }
                if fits(r, pos, 2 + 3 * n as int) {
                    assert(supplements(data, at + 2, n) =~= supplements(r, pos + 2, n));
                }
            }
        }
    }

    pub proof fn lemma_mapping(data: Seq<u8>, base: int, pos: int, glyph_count: int)
        requires 0 <= base <= data.len(), 0 <= pos, 0 <= glyph_count
        ensures mapping_dec(data, base + pos, glyph_count) == further(mapping_dec(rest(data, base), pos, glyph_count), base)
    {
        let r = rest(data, base);
        let at = base + pos;
        if fits(r, pos, 1) {
            assert(r[pos] == data[at]);
            if r[pos] == 0 && (glyph_count == 0 || fits(r, pos + 1, glyph_count)) {
                let n = glyph_count as nat;
                assert(Seq::new(n, |i: int| data[at + 1 + i]) =~= Seq::new(n, |i: int| r[pos + 1 + i]));
            }
            if r[pos] == 3 && fits(r, pos, 3) {
                assert(be16(r, pos + 1) == be16(data, at + 1));
                let n = be16(r, pos + 1) as nat;
                if fits(r, pos, 3 + 3 * n as int + 2) {
                    assert(glyph_ranges(data, at + 3, n) =~= glyph_ranges(r, pos + 3, n));
                    assert(be16(r, pos + 3 + 3 * n) == be16(data, at + 3 + 3 * n));
                }
            }
        }
    }

    pub proof fn lemma_private_place(data: Seq<u8>, base: int, dict: Dict)
        requires 0 <= base <= data.len()
        ensures private_value(data, base, dict) == private_value(rest(data, base), 0, dict)
    {
        let r = rest(data, base);
        match private_place(dict) {
            Some(place) => {
                assert(fits(data, base + place.1, place.0) == fits(r, place.1, place.0));
                if place.0 == 0 || fits(r, place.1, place.0) {
                    assert(private_bytes(data, base, place) =~= private_bytes(r, 0, place));
                    match dict_dec(private_bytes(r, 0, place), 0, Map::empty()) {
                        Dec::Somewhere(operations) => match dict_single(operations, crate::compact1::operation::Operator::Subrs) {
                            Some(crate::compact1::number::Number::Integer(more)) => {
                                if 0 <= place.1 + more <= i32::MAX {
                                    lemma_index(data, base, place.1 + more);
                                    assert(base + place.1 + more == base + (place.1 + more));
                                }
                            }
                            _ => {}
                        },
                        _ => {}
                    }
                }
            }
            None => {}
        }
    }

    pub proof fn lemma_keyed(data: Seq<u8>, base: int, dict: Dict, glyph_count: int)
        requires 0 <= base <= data.len(), 0 <= glyph_count
        ensures keyed_value(data, base, dict, glyph_count) == keyed_value(rest(data, base), 0, dict, glyph_count)
    {
        let r = rest(data, base);
        match natural(dict_single(dict, crate::compact1::operation::Operator::FDSelect)) {
            Some(offset) => lemma_mapping(data, base, offset, glyph_count),
            None => {}
        }
        assert(mapping_value(data, base, dict, glyph_count) == mapping_value(r, 0, dict, glyph_count));
        match natural(dict_single(dict, crate::compact1::operation::Operator::FDArray)) {
            Some(offset) => {
                lemma_index(data, base, offset);
                match index_dec(r, offset) {
                    Dec::Good(index, _) => {
                        let list = dicts(index);
                        assert forall|i: int| 0 <= i < list.len() implies #[trigger] private_value(data, base, list[i]) == private_value(r, 0, list[i]) by {
                            lemma_private_place(data, base, list[i]);
                        }
                        assert(privates_valid(data, base, list) == privates_valid(r, 0, list)) by {
                            if privates_valid(data, base, list) {
                                assert forall|i: int| 0 <= i < list.len() implies (#[trigger] private_value(r, 0, list[i])) is Some by {
                                    assert(private_value(data, base, list[i]) is Some);
                                }
                            }
                        }
                        assert(privates(data, base, list) =~= privates(r, 0, list));
                    }
                    _ => {}
                }
            }
            None => {}
        }
    }

    pub proof fn lemma_font(data: Seq<u8>, base: int, dict: Dict)
        requires 0 <= base <= data.len()
        ensures font_value(data, base, dict) == font_value(rest(data, base), 0, dict)
    {
        let r = rest(data, base);
        match natural(dict_single(dict, crate::compact1::operation::Operator::CharStrings)) {
            Some(offset) => lemma_index(data, base, offset),
            None => {}
        }
        assert(character_strings_value(data, base, dict) == character_strings_value(r, 0, dict));
        match character_strings_value(r, 0, dict) {
            Some(character_strings) => {
                let n = character_strings.count;
                assert(n >= 0);
                match natural(dict_single(dict, crate::compact1::operation::Operator::CharSet)) {
                    Some(offset) => lemma_charset(data, base, offset, n),
                    None => {}
                }
                match natural(dict_single(dict, crate::compact1::operation::Operator::Encoding)) {
                    Some(offset) => lemma_encoding(data, base, offset),
                    None => {}
                }
                lemma_keyed(data, base, dict, n);
                lemma_private_place(data, base, dict);
            }
            None => {}
        }
    }

    pub proof fn lemma_fonts(data: Seq<u8>, base: int, header: crate::compact1::header::Header, names: IndexV, list: Seq<Dict>, strings: IndexV, subroutines: IndexV)
        requires 0 <= base <= data.len()
        ensures
            font_set_of(data, base, header, names, list, strings, subroutines)
                == font_set_of(rest(data, base), 0, header, names, list, strings, subroutines),
    {
        let r = rest(data, base);
        assert forall|i: int| 0 <= i < list.len() implies #[trigger] font_value(data, base, list[i]) == font_value(r, 0, list[i]) by {
            lemma_font(data, base, list[i]);
        }
        if fonts_valid(data, base, list) {
            assert forall|i: int| 0 <= i < list.len() implies (#[trigger] font_value(r, 0, list[i])) is Some by {
                assert(font_value(data, base, list[i]) is Some);
            }
        }
        if fonts_valid(r, 0, list) {
            assert forall|i: int| 0 <= i < list.len() implies (#[trigger] font_value(data, base, list[i])) is Some by {
                assert(font_value(r, 0, list[i]) is Some);
            }
            let one = font_set_of(data, base, header, names, list, strings, subroutines)->Some_0;
            let other = font_set_of(r, 0, header, names, list, strings, subroutines)->Some_0;
            assert(one.encodings =~= other.encodings);
            assert(one.character_strings =~= other.character_strings);
            assert(one.character_sets =~= other.character_sets);
            assert(one.records =~= other.records);
        }
    }

    // Property C11: bytes in front of a font set have no influence on what it is read as.
    pub proof fn theorem_place(data: Seq<u8>, base: int)
        requires 0 <= base <= data.len()
        ensures
            font_set_dec(data, base) == font_set_dec(rest(data, base), 0),
            count_dec(data, base) == count_dec(rest(data, base), 0),
    {
        hide(index_dec);
        hide(font_set_of);
        hide(dicts);
        let r = rest(data, base);
        assert(header_dec(data, base) == further(header_dec(r, 0), base));
        match header_dec(r, 0) {
            Dec::Good(header, _) => {
                let a = header.header_size as int;
                assert(fits(data, base + a, 2) == fits(r, a, 2));
                assert(fits(r, a, 2) ==> be16(data, base + a) == be16(r, a));
                lemma_index(data, base, a);
                lemma_after(r, a);
                match index_dec(r, a) {
                    Dec::Good(names, p) => {
                        lemma_index(data, base, p);
                        lemma_after(r, p);
                        match index_dec(r, p) {
                            Dec::Good(dictionaries, q) => {
                                lemma_index(data, base, q);
                                lemma_after(r, q);
                                match index_dec(r, q) {
                                    Dec::Good(strings, s) => {
                                        lemma_index(data, base, s);
                                        match index_dec(r, s) {
                                            Dec::Good(subroutines, _) => lemma_fonts(data, base, header, names, dicts(dictionaries), strings, subroutines),
                                            _ => {}
                                        }
                                    }
                                    _ => {}
                                }
                            }
                            _ => {}
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        reveal(font_set_value);
    }

    // An index ends behind its start.
    pub proof fn lemma_after(data: Seq<u8>, pos: int)
        requires 0 <= pos
        ensures index_dec(data, pos) matches Dec::Good(_, p) ==> pos <= p
    {
        reveal(index_base);
        reveal(index_well_formed);
        lemma_index_offset(data, pos, be16(data, pos));
        if fits(data, pos, 3) {
            lemma_mul_le(0, be16(data, pos) + 1, data[pos + 2] as int);
        }
    }

    // Two font sets of the same bytes are read alike, wherever they lie.
    pub proof fn theorem_same(one: Seq<u8>, start: int, other: Seq<u8>, begin: int)
        requires
            0 <= start <= one.len(),
            0 <= begin <= other.len(),
            rest(one, start) == rest(other, begin),
        ensures
            font_set_dec(one, start) == font_set_dec(other, begin),
            count_dec(one, start) == count_dec(other, begin),
    {
        theorem_place(one, start);
        theorem_place(other, begin);
    }
}

} // verus!
