@implitems compact1::index::names::<Names as value::Read> & compact1::index::strings::<Strings as value::Read> & compact1::index::subroutines::<Subroutines as value::Read> & compact1::index::dictionaries::<Dictionaries as value::Read>
    type Abs = crate::spec1::IndexV;
    open spec fn abs(&self) -> crate::spec1::IndexV { crate::value::Read::abs(&self.0) }
    open spec fn dec(data: Seq<u8>, pos: int) -> Dec<crate::spec1::IndexV> { crate::spec1::index_dec(data, pos) }
@fn compact1::index::names::<Names as value::Read>::read
@fn compact1::index::strings::<Strings as value::Read>::read
@fn compact1::index::subroutines::<Subroutines as value::Read>::read
@fn compact1::index::dictionaries::<Dictionaries as value::Read>::read
@implitems compact1::index::character_strings::<CharacterStrings as walue::Read>
    type WAbs = crate::spec1::IndexV;
    open spec fn wabs(&self) -> crate::spec1::IndexV { crate::value::Read::abs(&self.0) }
    open spec fn wvalid(parameter: i32) -> bool { true }
    open spec fn wdec(data: Seq<u8>, pos: int, parameter: i32) -> Dec<crate::spec1::IndexV> {
        if parameter == 2 { crate::spec1::index_dec(data, pos) } else { Dec::Bad }
    }
@fn compact1::index::character_strings::<CharacterStrings as walue::Read>::read
@fn compact1::index::subroutines::<Subroutines as default::Default>::default
@ret r
    ensures crate::value::Read::abs(&r) == crate::spec1::index_empty()

@fn compact1::index::dictionaries::Dictionaries::get
@ret r
    requires
        index < crate::value::Read::abs(self).data.len(),
    ensures
        match r {
            Ok(v) => crate::spec_font::dict_at(crate::value::Read::abs(self), index as int) == Dec::<crate::spec1::Dict>::Somewhere(crate::value::Read::abs(&v)), //@kind functional
            Err(e) => !(crate::spec_font::dict_at(crate::value::Read::abs(self), index as int) is Somewhere), //@kind functional
        },
@entry
    proof { crate::spec1::lemma_dict_decided(crate::value::Read::abs(self).data[index as int], 0, Map::empty()); }
@implitems compact1::index::dictionaries::<Vec<Operations> as TryFrom<&Dictionaries>>
    open spec fn converts(value: &'vx Dictionaries) -> bool { crate::spec_font::dicts_valid(crate::value::Read::abs(value)) }
    open spec fn converted(value: &'vx Dictionaries, to: Vec<Operations>) -> bool { abs_seq(to@) == crate::spec_font::dicts(crate::value::Read::abs(value)) }
@mod compact1::index::dictionaries
    // Operations are those of the first objects.
    pub open spec fn decoded(dictionaries: Dictionaries, to: Seq<Operations>) -> bool {
        forall|i: int| 0 <= i < to.len() ==> (#[trigger] crate::spec_font::dict_at(crate::value::Read::abs(&dictionaries), i)) == Dec::<crate::spec1::Dict>::Somewhere(crate::value::Read::abs(&to[i]))
    }
@fn compact1::index::dictionaries::<Vec<Operations> as TryFrom<&Dictionaries>>::try_from
@loop 0
    invariant
        index == values@.len(),
        decoded(*dictionatires, values@),
@tail
    proof { assert(abs_seq(values@) =~= crate::spec_font::dicts(crate::value::Read::abs(dictionatires))); }

@implitems compact1::index::names::<Vec<String> as TryFrom<Names>>
    open spec fn converts(value: Names) -> bool { true }
    open spec fn converted(value: Names, to: Vec<String>) -> bool { to@.len() == value.0.data@.len() && texts(value.0.data@, to@) }
@mod compact1::index::names
    // Texts are those of the first objects.
    pub open spec fn texts(objects: Seq<Vec<u8>>, to: Seq<String>) -> bool {
        forall|i: int| 0 <= i < to.len() ==> (#[trigger] to[i])@ == utf8_lossy(objects[i]@)
    }
@fn compact1::index::names::<Vec<String> as TryFrom<Names>>::try_from
@loop 0
    invariant
        vx_s@.len() + vector@.len() == names.0.data@.len(),
        forall|i: int| 0 <= i < vx_s@.len() ==> (#[trigger] vx_s@[i]) == names.0.data@[vector@.len() + i],
        texts(names.0.data@, vector@),
    decreases vx_s@.len()

@fn compact1::index::strings::Strings::get
@ret r
    ensures
        string_id < 391 ==> r is Some && r->Some_0@ == crate::tables::standard_string(string_id as int)@, //@kind functional
        string_id >= 391 && string_id - 391 < self.0.data@.len() ==> r is Some && r->Some_0@ == utf8_lossy(self.0.data@[string_id - 391]@), //@kind functional
        string_id >= 391 && string_id - 391 >= self.0.data@.len() ==> r is None, //@kind functional
@fn compact1::index::strings::get_standard_string
@ret r
    ensures
        string_id < 391 ==> r is Some && r->Some_0@ == crate::tables::standard_string(string_id as int)@, //@kind functional
        string_id >= 391 ==> r is None, //@kind functional

//# ---------------------------------------------------------------- character sets
@implitems compact1::character_set::<Range1 as value::Read>
    type Abs = crate::spec_font::RangeV;
    open spec fn abs(&self) -> crate::spec_font::RangeV { crate::spec_font::RangeV { first: self.first_string_id as int, left: self.left_count as int } }
    open spec fn dec(data: Seq<u8>, pos: int) -> Dec<crate::spec_font::RangeV> { crate::spec_font::range_dec(data, pos, 1) }
@implitems compact1::character_set::<Range2 as value::Read>
    type Abs = crate::spec_font::RangeV;
    open spec fn abs(&self) -> crate::spec_font::RangeV { crate::spec_font::RangeV { first: self.first_string_id as int, left: self.left_count as int } }
    open spec fn dec(data: Seq<u8>, pos: int) -> Dec<crate::spec_font::RangeV> { crate::spec_font::range_dec(data, pos, 2) }
@fn compact1::character_set::<Range1 as default::Default>::default
@fn compact1::character_set::<Range2 as default::Default>::default
@fn compact1::character_set::<Range1 as value::Read>::read
@fn compact1::character_set::<Range2 as value::Read>::read
@implitems compact1::character_set::<CharacterSet0 as walue::Read>
    type WAbs = crate::spec_font::CharsetV;
    open spec fn wabs(&self) -> crate::spec_font::CharsetV { crate::spec_font::CharsetV::Identifiers(self.format, self.glyphs@) }
    open spec fn wvalid(parameter: usize) -> bool { parameter <= u32::MAX }
    open spec fn wdec(data: Seq<u8>, pos: int, parameter: usize) -> Dec<crate::spec_font::CharsetV> { crate::spec_font::charset0_dec(data, pos, parameter as int) }
@implitems compact1::character_set::<CharacterSet1 as walue::Read>
    type WAbs = crate::spec_font::CharsetV;
    open spec fn wabs(&self) -> crate::spec_font::CharsetV { crate::spec_font::CharsetV::Ranges(self.format, abs_seq(self.ranges@)) }
    open spec fn wvalid(parameter: usize) -> bool { parameter <= u32::MAX }
    open spec fn wdec(data: Seq<u8>, pos: int, parameter: usize) -> Dec<crate::spec_font::CharsetV> { crate::spec_font::charset_ranges_dec(data, pos, parameter as int, 1) }
@implitems compact1::character_set::<CharacterSet2 as walue::Read>
    type WAbs = crate::spec_font::CharsetV;
    open spec fn wabs(&self) -> crate::spec_font::CharsetV { crate::spec_font::CharsetV::Ranges(self.format, abs_seq(self.ranges@)) }
    open spec fn wvalid(parameter: usize) -> bool { parameter <= u32::MAX }
    open spec fn wdec(data: Seq<u8>, pos: int, parameter: usize) -> Dec<crate::spec_font::CharsetV> { crate::spec_font::charset_ranges_dec(data, pos, parameter as int, 2) }
@implitems compact1::character_set::<CharacterSet as walue::Read>
    type WAbs = crate::spec_font::CharsetV;
    open spec fn wabs(&self) -> crate::spec_font::CharsetV {
        match self {
            CharacterSet::ISOAdobe => crate::spec_font::CharsetV::IsoAdobe,
            CharacterSet::Expert => crate::spec_font::CharsetV::Expert,
            CharacterSet::ExpertSubset => crate::spec_font::CharsetV::ExpertSubset,
            CharacterSet::Format0(x) => crate::walue::Read::wabs(x),
            CharacterSet::Format1(x) => crate::walue::Read::wabs(x),
            CharacterSet::Format2(x) => crate::walue::Read::wabs(x),
        }
    }
    open spec fn wvalid(parameter: usize) -> bool { parameter <= u32::MAX }
    open spec fn wdec(data: Seq<u8>, pos: int, parameter: usize) -> Dec<crate::spec_font::CharsetV> { crate::spec_font::charset_dec(data, pos, parameter as int) }
@fn compact1::character_set::<CharacterSet as walue::Read>::read
@fn compact1::character_set::<CharacterSet0 as walue::Read>::read
@entry
    proof { if fits(tape.data(), tape.pos(), 1) && glyph_count > 0 { lemma_dec_u16s(tape.data(), tape.pos() + 1, (glyph_count - 1) as nat); } }
@fn compact1::character_set::<CharacterSet1 as walue::Read>::read
@entry
    let ghost vx_data = tape.data();
    let ghost vx_start = tape.pos();
@pre_loop 0
    proof { assert(abs_seq::<Range1>(ranges@) =~= seq![]); }
@loop 0
    invariant
        vx_data == old(tape).data(),
        vx_start == old(tape).pos(),
        tape.data() == vx_data,
        tape.fault() == old(tape).fault(),
        format == 1,
        fits(vx_data, vx_start, 1),
        vx_data[vx_start] == 1,
        tape.pos() >= 0,
        glyph_count <= u32::MAX,
        found_count < u32::MAX + 256,
        crate::spec_font::ranges_dec(vx_data, vx_start + 1, 1, glyph_count - 1, seq![]) == crate::spec_font::ranges_dec(vx_data, tape.pos(), 1, glyph_count - found_count, abs_seq(ranges@)),
    decreases (if found_count <= glyph_count { glyph_count - found_count } else { 0 })
@loop_entry 0
    let ghost vx_before = abs_seq(ranges@);
@loop_exit 0
    proof { assert(abs_seq(ranges@) =~= vx_before.push(crate::value::Read::abs(&range))); }
@fn compact1::character_set::<CharacterSet2 as walue::Read>::read
@entry
    let ghost vx_data = tape.data();
    let ghost vx_start = tape.pos();
@pre_loop 0
    proof { assert(abs_seq::<Range2>(ranges@) =~= seq![]); }
@loop 0
    invariant
        vx_data == old(tape).data(),
        vx_start == old(tape).pos(),
        tape.data() == vx_data,
        tape.fault() == old(tape).fault(),
        format == 2,
        fits(vx_data, vx_start, 1),
        vx_data[vx_start] == 2,
        tape.pos() >= 0,
        glyph_count <= u32::MAX,
        found_count < u32::MAX + 65536,
        crate::spec_font::ranges_dec(vx_data, vx_start + 1, 2, glyph_count - 1, seq![]) == crate::spec_font::ranges_dec(vx_data, tape.pos(), 2, glyph_count - found_count, abs_seq(ranges@)),
    decreases (if found_count <= glyph_count { glyph_count - found_count } else { 0 })
@loop_entry 0
    let ghost vx_before = abs_seq(ranges@);
@loop_exit 0
    proof { assert(abs_seq(ranges@) =~= vx_before.push(crate::value::Read::abs(&range))); }
@fn compact1::character_set::CharacterSet::get
@ret r
    ensures
        match self {
            CharacterSet::ISOAdobe => crate::spec_font::named(r, crate::tables::iso_adobe(glyph_id as int), glyph_id as int), //@kind functional
            CharacterSet::Expert => crate::spec_font::named(r, crate::tables::expert(glyph_id as int), glyph_id as int), //@kind functional
            CharacterSet::ExpertSubset => crate::spec_font::named(r, crate::tables::expert_subset(glyph_id as int), glyph_id as int), //@kind functional
            _ => r is None, //@kind functional
        },
@fn compact1::character_set::CharacterSet0::get
@ret r
    ensures r is None, //@kind functional
@fn compact1::character_set::CharacterSet1::get
@ret r
    ensures r is None, //@kind functional
@fn compact1::character_set::CharacterSet2::get
@ret r
    ensures r is None, //@kind functional
@fn compact1::character_set::get_iso_adobe
@ret r
    ensures crate::spec_font::named(r, crate::tables::iso_adobe(glyph_id as int), glyph_id as int), //@kind functional
@fn compact1::character_set::get_expert
@ret r
    ensures crate::spec_font::named(r, crate::tables::expert(glyph_id as int), glyph_id as int), //@kind functional
@fn compact1::character_set::get_expert_subset
@ret r
    ensures crate::spec_font::named(r, crate::tables::expert_subset(glyph_id as int), glyph_id as int), //@kind functional

//# ---------------------------------------------------------------- encodings
@implitems compact1::encoding::<Encoding0 as value::Read>
    type Abs = crate::spec_font::EncodingV;
    open spec fn abs(&self) -> crate::spec_font::EncodingV {
        if self.format == 0 && self.code_count == self.codes@.len() { crate::spec_font::EncodingV::Codes(self.codes@) } else { crate::spec_font::EncodingV::Other }
    }
    open spec fn dec(data: Seq<u8>, pos: int) -> Dec<crate::spec_font::EncodingV> { crate::spec_font::encoding0_dec(data, pos) }
@implitems compact1::encoding::<Encoding1 as value::Read>
    type Abs = crate::spec_font::EncodingV;
    open spec fn abs(&self) -> crate::spec_font::EncodingV {
        if self.format == 1 && self.range_count == self.ranges@.len() { crate::spec_font::EncodingV::Ranges(abs_seq(self.ranges@)) } else { crate::spec_font::EncodingV::Other }
    }
    open spec fn dec(data: Seq<u8>, pos: int) -> Dec<crate::spec_font::EncodingV> { crate::spec_font::encoding1_dec(data, pos) }
@implitems compact1::encoding::<EncodingSupplemental as value::Read>
    type Abs = crate::spec_font::EncodingV;
    open spec fn abs(&self) -> crate::spec_font::EncodingV {
        if self.supplement_count == self.supplements@.len() { crate::spec_font::EncodingV::Supplements(self.format, abs_seq(self.supplements@)) } else { crate::spec_font::EncodingV::Other }
    }
    open spec fn dec(data: Seq<u8>, pos: int) -> Dec<crate::spec_font::EncodingV> { crate::spec_font::supplement_dec(data, pos) }
@implitems compact1::encoding::<Range1 as value::Read>
    type Abs = (int, int);
    open spec fn abs(&self) -> (int, int) { (self.first_code as int, self.left_count as int) }
    open spec fn dec(data: Seq<u8>, pos: int) -> Dec<(int, int)> {
        if fits(data, pos, 2) { Dec::Good((data[pos] as int, data[pos + 1] as int), pos + 2) } else { Dec::Eof }
    }
@implitems compact1::encoding::<Supplement as value::Read>
    type Abs = (int, int);
    open spec fn abs(&self) -> (int, int) { (self.code as int, self.glyph as int) }
    open spec fn dec(data: Seq<u8>, pos: int) -> Dec<(int, int)> {
        if fits(data, pos, 3) { Dec::Good((data[pos] as int, be16(data, pos + 1)), pos + 3) } else { Dec::Eof }
    }
@implitems compact1::encoding::<Encoding as value::Read>
    type Abs = crate::spec_font::EncodingV;
    open spec fn abs(&self) -> crate::spec_font::EncodingV {
        match self {
            Encoding::Standard => crate::spec_font::EncodingV::Standard,
            Encoding::Expert => crate::spec_font::EncodingV::Expert,
            Encoding::Format0(x) => crate::value::Read::abs(x),
            Encoding::Format1(x) => crate::value::Read::abs(x),
            Encoding::FormatSupplemental(x) => crate::value::Read::abs(x),
        }
    }
    open spec fn dec(data: Seq<u8>, pos: int) -> Dec<crate::spec_font::EncodingV> { crate::spec_font::encoding_dec(data, pos) }
@mod compact1::encoding
    pub proof fn lemma_ranges(data: Seq<u8>, pos: int, count: nat)
        requires 0 <= pos
        ensures dec_seq::<Range1>(data, pos, count) == (if count == 0 || fits(data, pos, 2 * count as int) {
            Dec::<Seq<(int, int)>>::Good(crate::spec_font::code_ranges(data, pos, count), pos + 2 * count)
        } else {
            Dec::<Seq<(int, int)>>::Eof
        })
        decreases count
    {
        if count > 0 {
            lemma_ranges(data, pos, (count - 1) as nat);
            if fits(data, pos, 2 * count as int) {
                let item = crate::spec_font::code_ranges(data, pos, count)[count - 1];
                assert(crate::spec_font::code_ranges(data, pos, (count - 1) as nat).push(item) =~= crate::spec_font::code_ranges(data, pos, count));
            }
        } else {
            assert(crate::spec_font::code_ranges(data, pos, 0) =~= Seq::<(int, int)>::empty());
        }
    }
    pub proof fn lemma_supplements(data: Seq<u8>, pos: int, count: nat)
        requires 0 <= pos
        ensures dec_seq::<Supplement>(data, pos, count) == (if count == 0 || fits(data, pos, 3 * count as int) {
            Dec::<Seq<(int, int)>>::Good(crate::spec_font::supplements(data, pos, count), pos + 3 * count)
        } else {
            Dec::<Seq<(int, int)>>::Eof
        })
        decreases count
    {
        if count > 0 {
            lemma_supplements(data, pos, (count - 1) as nat);
            if fits(data, pos, 3 * count as int) {
                let item = crate::spec_font::supplements(data, pos, count)[count - 1];
                assert(crate::spec_font::supplements(data, pos, (count - 1) as nat).push(item) =~= crate::spec_font::supplements(data, pos, count));
            }
        } else {
            assert(crate::spec_font::supplements(data, pos, 0) =~= Seq::<(int, int)>::empty());
        }
    }
@fn compact1::encoding::<Encoding0 as default::Default>::default
@fn compact1::encoding::<Encoding1 as default::Default>::default
@fn compact1::encoding::<EncodingSupplemental as default::Default>::default
@fn compact1::encoding::<Range1 as default::Default>::default
@fn compact1::encoding::<Supplement as default::Default>::default
@fn compact1::encoding::<Range1 as value::Read>::read
@fn compact1::encoding::<Supplement as value::Read>::read
@fn compact1::encoding::<Encoding0 as value::Read>::read
@entry
    proof { if fits(tape.data(), tape.pos(), 2) { lemma_dec_bytes(tape.data(), tape.pos() + 2, tape.data()[tape.pos() + 1] as nat); } }
@tail
    proof { assert(table.codes@ =~= abs_seq(table.codes@)); }
@fn compact1::encoding::<Encoding1 as value::Read>::read
@entry
    proof { if fits(tape.data(), tape.pos(), 2) { lemma_ranges(tape.data(), tape.pos() + 2, tape.data()[tape.pos() + 1] as nat); } }
@fn compact1::encoding::<EncodingSupplemental as value::Read>::read
@entry
    proof { if fits(tape.data(), tape.pos(), 2) { lemma_supplements(tape.data(), tape.pos() + 2, tape.data()[tape.pos() + 1] as nat); } }
@fn compact1::encoding::<Encoding as value::Read>::read
@entry
    proof { assert(forall|b: u8| (b & 0x80 > 0) == (b >= 128)) by (bit_vector); }
@fn compact1::encoding::Encoding::get
@ret r
    ensures
        match self {
            Encoding::Standard => r == (if glyph_id < 256 { Some(crate::tables::standard_encoding(glyph_id as int) as u16) } else { None::<u16> }), //@kind functional
            Encoding::Expert => r == (if glyph_id < 256 { Some(crate::tables::expert_encoding(glyph_id as int) as u16) } else { None::<u16> }), //@kind functional
            _ => r is None, //@kind functional
        },
@fn compact1::encoding::Encoding0::get
@ret r
    ensures r is None, //@kind functional
@fn compact1::encoding::Encoding1::get
@ret r
    ensures r is None, //@kind functional
@fn compact1::encoding::EncodingSupplemental::get
@ret r
    ensures r is None, //@kind functional
@fn compact1::encoding::get_standard
@ret r
    ensures r == (if glyph_id < 256 { Some(crate::tables::standard_encoding(glyph_id as int) as u16) } else { None::<u16> }), //@kind functional
@fn compact1::encoding::get_expert
@ret r
    ensures r == (if glyph_id < 256 { Some(crate::tables::expert_encoding(glyph_id as int) as u16) } else { None::<u16> }), //@kind functional
