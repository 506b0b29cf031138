@implitems compact1::font_set::character_id_keyed::<Range3 as value::Read>
    type Abs = (int, int);
    open spec fn abs(&self) -> (int, int) { (self.first_glyph_id as int, self.dictionary_id as int) }
    open spec fn dec(data: Seq<u8>, pos: int) -> Dec<(int, int)> {
        if fits(data, pos, 3) { Dec::Good((be16(data, pos), data[pos + 2] as int), pos + 3) } else { Dec::Eof }
    }
@implitems compact1::font_set::character_id_keyed::<Encoding3 as value::Read>
    type Abs = crate::spec_font::MappingV;
    open spec fn abs(&self) -> crate::spec_font::MappingV {
        if self.format == 3 && self.range_count == self.ranges@.len() { crate::spec_font::MappingV::Ranges(abs_seq(self.ranges@), self.glyph_count as int) } else { crate::spec_font::MappingV::Other }
    }
    open spec fn dec(data: Seq<u8>, pos: int) -> Dec<crate::spec_font::MappingV> { crate::spec_font::mapping3_dec(data, pos) }
@implitems compact1::font_set::character_id_keyed::<Encoding0 as walue::Read>
    type WAbs = crate::spec_font::MappingV;
    open spec fn wabs(&self) -> crate::spec_font::MappingV {
        if self.format == 0 { crate::spec_font::MappingV::Direct(self.dictionary_ids@) } else { crate::spec_font::MappingV::Other }
    }
    open spec fn wvalid(parameter: &'l CharacterStrings) -> bool { true }
    open spec fn wdec(data: Seq<u8>, pos: int, parameter: &'l CharacterStrings) -> Dec<crate::spec_font::MappingV> { crate::spec_font::mapping0_dec(data, pos, parameter.0.count as int) }
@implitems compact1::font_set::character_id_keyed::<Encoding as walue::Read>
    type WAbs = crate::spec_font::MappingV;
    open spec fn wabs(&self) -> crate::spec_font::MappingV {
        match self { Encoding::Format0(x) => crate::walue::Read::wabs(x), Encoding::Format3(x) => crate::value::Read::abs(x) }
    }
    open spec fn wvalid(parameter: &'l CharacterStrings) -> bool { true }
    open spec fn wdec(data: Seq<u8>, pos: int, parameter: &'l CharacterStrings) -> Dec<crate::spec_font::MappingV> { crate::spec_font::mapping_dec(data, pos, parameter.0.count as int) }
@mod compact1::font_set::character_id_keyed
    pub proof fn lemma_ranges(data: Seq<u8>, pos: int, count: nat)
        requires 0 <= pos
        ensures dec_seq::<Range3>(data, pos, count) == (if count == 0 || fits(data, pos, 3 * count as int) {
            Dec::<Seq<(int, int)>>::Good(crate::spec_font::glyph_ranges(data, pos, count), pos + 3 * count)
        } else {
            Dec::<Seq<(int, int)>>::Eof
        })
        decreases count
    {
        if count > 0 {
            lemma_ranges(data, pos, (count - 1) as nat);
            if fits(data, pos, 3 * count as int) {
                let item = crate::spec_font::glyph_ranges(data, pos, count)[count - 1];
                assert(crate::spec_font::glyph_ranges(data, pos, (count - 1) as nat).push(item) =~= crate::spec_font::glyph_ranges(data, pos, count));
            }
        } else {
            assert(crate::spec_font::glyph_ranges(data, pos, 0) =~= Seq::<(int, int)>::empty());
        }
    }
@fn compact1::font_set::character_id_keyed::<Encoding3 as default::Default>::default
@fn compact1::font_set::character_id_keyed::<Range3 as default::Default>::default
@fn compact1::font_set::character_id_keyed::<Range3 as value::Read>::read
@fn compact1::font_set::character_id_keyed::<Encoding3 as value::Read>::read
@entry
    proof { if fits(tape.data(), tape.pos(), 3) { lemma_ranges(tape.data(), tape.pos() + 3, be16(tape.data(), tape.pos() + 1) as nat); } }
@fn compact1::font_set::character_id_keyed::<Encoding as walue::Read>::read
@fn compact1::font_set::character_id_keyed::<Encoding0 as walue::Read>::read
@entry
    proof { if fits(tape.data(), tape.pos(), 1) { lemma_dec_bytes(tape.data(), tape.pos() + 1, character_strings.0.count as nat); } }

@implitems compact1::font_set::character_id_keyed::<RecordInner as walue::Read> & compact1::font_set::character_name_keyed::<Record as walue::Read>
    type WAbs = crate::spec_font::PrivateV;
    open spec fn wabs(&self) -> crate::spec_font::PrivateV {
        crate::spec_font::PrivateV { operations: crate::value::Read::abs(&self.operations), subroutines: crate::value::Read::abs(&self.subroutines) }
    }
    open spec fn wvalid(parameter: (u64, &'l Operations)) -> bool { parameter.0 <= i64::MAX }
    open spec fn wdec(data: Seq<u8>, pos: int, parameter: (u64, &'l Operations)) -> Dec<crate::spec_font::PrivateV> {
        crate::spec_font::private_dec(data, parameter.0 as int, crate::value::Read::abs(parameter.1))
    }
@fn compact1::font_set::character_id_keyed::<RecordInner as walue::Read>::read
@entry
    proof { crate::spec_font::lemma_private(tape.data(), vx_p1.0 as int, crate::value::Read::abs(vx_p1.1)); }
@fn compact1::font_set::character_name_keyed::<Record as walue::Read>::read
@entry
    proof { crate::spec_font::lemma_private(tape.data(), vx_p1.0 as int, crate::value::Read::abs(vx_p1.1)); }

@implitems compact1::font_set::character_id_keyed::<Record as walue::Read>
    type WAbs = crate::spec_font::KeyedV;
    open spec fn wabs(&self) -> crate::spec_font::KeyedV {
        crate::spec_font::KeyedV {
            registry: self.registry,
            ordering: self.ordering,
            supplement: self.supplement,
            mapping: crate::walue::Read::wabs(&self.encoding),
            operations: abs_seq(self.operations@),
            records: wabs_seq(self.records@),
        }
    }
    open spec fn wvalid(parameter: (u64, &'l Operations, &'l CharacterStrings)) -> bool { parameter.0 <= i64::MAX }
    open spec fn wdec(data: Seq<u8>, pos: int, parameter: (u64, &'l Operations, &'l CharacterStrings)) -> Dec<crate::spec_font::KeyedV> {
        crate::spec_font::keyed_dec(data, parameter.0 as int, crate::value::Read::abs(parameter.1), parameter.2.0.count as int)
    }
@fn compact1::font_set::character_id_keyed::<Record as walue::Read>::read
@attr verifier::loop_isolation(false)
@entry
    let ghost vx_data = tape.data();
    let ghost vx_base = vx_p1.0 as int;
@loop 0
    invariant
        vx_data == old(tape).data(),
        tape.data() == vx_data,
        tape.fault() == old(tape).fault(),
        position == vx_base,
        vx_base <= i64::MAX,
        *vx_s == operations,
        vx_i == records@.len(),
        vx_i <= vx_s@.len(),
        forall|i: int| 0 <= i < vx_i ==> (#[trigger] crate::spec_font::private_value(vx_data, vx_base, abs_seq(operations@)[i])) == Some(crate::walue::Read::wabs(&records@[i])),
    decreases vx_s@.len() - vx_i
@loop_entry 0
    proof { assert(crate::spec_font::private_value(vx_data, vx_base, abs_seq(operations@)[vx_i as int]) == crate::spec_font::private_value(vx_data, vx_base, crate::value::Read::abs(&operations@[vx_i as int]))); }
@tail
    proof { if vx_r is Ok { assert(wabs_seq(vx_r->Ok_0.records@) =~= crate::spec_font::privates(vx_data, vx_base, abs_seq(vx_r->Ok_0.operations@))); } }

@implitems compact1::font_set::<Record as walue::Read>
    type WAbs = crate::spec_font::RecordV;
    open spec fn wabs(&self) -> crate::spec_font::RecordV {
        match self {
            Record::CharacterIDKeyed(x) => crate::spec_font::RecordV::Keyed(crate::walue::Read::wabs(x)),
            Record::CharacterNameKeyed(x) => crate::spec_font::RecordV::Named(crate::walue::Read::wabs(x)),
        }
    }
    open spec fn wvalid(parameter: (u64, &'l Operations, &'l CharacterStrings)) -> bool { parameter.0 <= i64::MAX }
    open spec fn wdec(data: Seq<u8>, pos: int, parameter: (u64, &'l Operations, &'l CharacterStrings)) -> Dec<crate::spec_font::RecordV> {
        crate::spec_font::record_dec(data, parameter.0 as int, crate::value::Read::abs(parameter.1), parameter.2.0.count as int)
    }
@fn compact1::font_set::<Record as walue::Read>::read

@implitems compact1::font_set::<FontSet as value::Read>
    type Abs = crate::spec_font::FontSetV;
    open spec fn abs(&self) -> crate::spec_font::FontSetV {
        crate::spec_font::FontSetV {
            header: self.header,
            names: crate::value::Read::abs(&self.names),
            operations: abs_seq(self.operations@),
            strings: crate::value::Read::abs(&self.strings),
            subroutines: crate::value::Read::abs(&self.subroutines),
            encodings: abs_seq(self.encodings@),
            character_strings: wabs_seq(self.character_strings@),
            character_sets: wabs_seq(self.character_sets@),
            records: wabs_seq(self.records@),
        }
    }
    open spec fn dec(data: Seq<u8>, pos: int) -> Dec<crate::spec_font::FontSetV> { crate::spec_font::font_set_dec(data, pos) }
@fn compact1::font_set::<FontSet as value::Read>::read
@entry
    let ghost vx_data = tape.data();
    let ghost vx_base = tape.pos();
    proof { reveal(crate::spec_font::font_set_value); }
@pre_loop 0
    let ghost vx_ops = abs_seq(operations@);
@loop 0
    invariant
        vx_data == old(tape).data(),
        vx_base == old(tape).pos(),
        tape.data() == vx_data,
        tape.fault() == old(tape).fault(),
        position == vx_base,
        0 <= vx_base <= i64::MAX,
        *vx_s == operations,
        vx_ops == abs_seq(operations@),
        crate::spec_font::font_set_value(vx_data, vx_base) == crate::spec_font::font_set_of(vx_data, vx_base, header, crate::value::Read::abs(&names), vx_ops, crate::value::Read::abs(&strings), crate::value::Read::abs(&subroutines)),
        vx_i <= vx_s@.len(),
        vx_i == character_strings@.len(),
        vx_i == character_sets@.len(),
        vx_i == encodings@.len(),
        vx_i == records@.len(),
        forall|i: int| 0 <= i < vx_i ==> (#[trigger] crate::spec_font::font_value(vx_data, vx_base, vx_ops[i])) == Some(crate::spec_font::FontV {
            character_strings: crate::walue::Read::wabs(&character_strings@[i]),
            character_set: crate::walue::Read::wabs(&character_sets@[i]),
            encoding: crate::value::Read::abs(&encodings@[i]),
            record: crate::walue::Read::wabs(&records@[i]),
        }),
    decreases vx_s@.len() - vx_i
@loop_entry 0
    proof { assert(vx_ops[vx_i as int] == crate::value::Read::abs(&operations@[vx_i as int])); }
    let ghost dict = crate::value::Read::abs(&operations@[vx_i as int]);
    proof { if !(crate::spec_font::font_value(vx_data, vx_base, dict) is Some) { assert(!crate::spec_font::fonts_valid(vx_data, vx_base, vx_ops)); } }
@tail
    proof {
        if vx_r is Ok {
            let v = vx_r->Ok_0;
            let w = crate::spec_font::font_set_value(vx_data, vx_base)->Some_0;
            assert(abs_seq(v.encodings@) =~= w.encodings);
            assert(wabs_seq(v.character_strings@) =~= w.character_strings);
            assert(wabs_seq(v.character_sets@) =~= w.character_sets);
            assert(wabs_seq(v.records@) =~= w.records);
        }
    }
@fn compact1::font_set::FontSet::count
@ret r
    ensures
        final(tape).data() == old(tape).data(), //@kind functional
        old(tape).fault() <= final(tape).fault(), //@kind fault
        r is Ok ==> final(tape).fault() == old(tape).fault(), //@kind fault
        match r { Ok(v) => met(crate::spec_font::count_dec(old(tape).data(), old(tape).pos()), v, final(tape).pos()), Err(e) => failed(crate::spec_font::count_dec(old(tape).data(), old(tape).pos()), e, old(tape).fault(), final(tape).fault()) }, //@kind functional
