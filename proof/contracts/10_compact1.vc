//# ---------------------------------------------------------------- mod, header, offset, number
@implitems compact1::<StringID as TryFrom<Number>>
    open spec fn converts(value: Number) -> bool { crate::spec1::is_string_id(value) }
    open spec fn converted(value: Number, to: u16) -> bool { to == crate::spec1::string_id(value) }
@fn compact1::<StringID as TryFrom<Number>>::try_from

@implitems compact1::header::<Header as value::Read>
    type Abs = Header;
    open spec fn abs(&self) -> Header { *self }
    open spec fn dec(data: Seq<u8>, pos: int) -> Dec<Header> { crate::spec1::header_dec(data, pos) }
@fn compact1::header::<Header as default::Default>::default
@fn compact1::header::<Header as value::Read>::read

@implitems compact1::offset::<Offset as walue::Read>
    type WAbs = Offset;
    open spec fn wabs(&self) -> Offset { *self }
    open spec fn wvalid(parameter: u8) -> bool { true }
    open spec fn wdec(data: Seq<u8>, pos: int, parameter: u8) -> Dec<Offset> { crate::spec1::offset_dec(data, pos, parameter as int) }
@fn compact1::offset::<Offset as walue::Read>::read
@mod compact1::offset
    // The derived order.
    impl vstd::std_specs::cmp::PartialOrdSpecImpl for Offset {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, other: &Offset) -> Option<core::cmp::Ordering> {
            if self.0 < other.0 { Some(core::cmp::Ordering::Less) } else if self.0 == other.0 { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
        }
    }
    impl PartialOrd for Offset {
        fn partial_cmp(&self, other: &Offset) -> (r: Option<core::cmp::Ordering>) {
            if self.0 < other.0 { Some(core::cmp::Ordering::Less) } else if self.0 == other.0 { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
        }
    }

@implitems compact1::number::<Number as From<f32>>
    open spec fn from_spec(value: f32) -> Number { Number::Real(value) }
@fn compact1::number::<Number as From<f32>>::from
@implitems compact1::number::<Number as From<i32>>
    open spec fn from_spec(value: i32) -> Number { Number::Integer(value) }
@fn compact1::number::<Number as From<i32>>::from

@implitems compact1::number::<Number as value::Read>
    type Abs = Number;
    open spec fn abs(&self) -> Number { *self }
    open spec fn dec(data: Seq<u8>, pos: int) -> Dec<Number> { crate::spec1::number_dec(data, pos) }
@fn compact1::number::<Number as value::Read>::read
@entry
    proof { crate::spec1::lemma_casts(); }

@fn compact1::number::parse
@ret r
    ensures
        final(tape).data() == old(tape).data(), //@kind functional
        old(tape).fault() <= final(tape).fault(), //@kind fault
        r is Ok ==> final(tape).fault() == old(tape).fault(), //@kind fault
        match r { Ok(v) => met(crate::spec1::real_dec(old(tape).data(), old(tape).pos()), v, final(tape).pos()), Err(e) => failed(crate::spec1::real_dec(old(tape).data(), old(tape).pos()), e, old(tape).fault(), final(tape).fault()) }, //@kind functional
@entry
    let ghost vx_data = tape.data();
    let ghost vx_start = tape.pos();
    let ghost mut k: nat = 0;
@loop 0
    invariant_except_break
        vx_data == old(tape).data(),
        vx_start == old(tape).pos(),
        tape.data() == vx_data,
        tape.fault() == old(tape).fault(),
        high == (k % 2 == 0),
        tape.pos() == vx_start + (k as int + 1) / 2,
        k > 0 ==> vx_start >= 0 && vx_start + (k as int + 1) / 2 <= vx_data.len(),
        !high ==> byte == vx_data[vx_start + k as int / 2],
        crate::spec1::real_text(vx_data, vx_start, 0, seq![]) == crate::spec1::real_text(vx_data, vx_start, k, buffer@),
    ensures
        tape.data() == old(tape).data(),
        tape.fault() == old(tape).fault(),
        vx_data == old(tape).data(),
        vx_start == old(tape).pos(),
        crate::spec1::real_text(vx_data, vx_start, 0, seq![]) == Dec::<Seq<char>>::Good(buffer@, tape.pos()),
    decreases 2 * (vx_data.len() - vx_start) - k
@loop_entry 0
    proof { crate::spec1::lemma_nibbles(vx_data[vx_start + k as int / 2]); reveal_strlit("e-"); }
    let ghost text = buffer@;
@loop_exit 0
    proof {
        assert(buffer@ =~= text + crate::spec1::nibble_text(nibble as int));
        k = k + 1;
    }

//# ---------------------------------------------------------------- index
@implitems compact1::index::<Index as value::Read>
    type Abs = crate::spec1::IndexV;
    open spec fn abs(&self) -> crate::spec1::IndexV {
        crate::spec1::IndexV {
            count: self.count as int,
            offset_size: self.offset_size as int,
            offsets: self.offsets@,
            data: Seq::new(self.data@.len(), |i: int| self.data@[i]@),
        }
    }
    open spec fn dec(data: Seq<u8>, pos: int) -> Dec<crate::spec1::IndexV> { crate::spec1::index_dec(data, pos) }
@fn compact1::index::<Index as default::Default>::default
@ret r
    ensures crate::value::Read::abs(&r) == crate::spec1::index_empty()
@tail
    proof {
        let v = crate::value::Read::abs(&vx_r);
        assert(v.offsets =~= crate::spec1::index_empty().offsets);
        assert(v.data =~= crate::spec1::index_empty().data);
    }
@fn compact1::index::<Index as value::Read>::read
@entry
    let ghost vx_data = tape.data();
    let ghost vx_start = tape.pos();
    proof { if !fits(vx_data, vx_start, 3) { crate::spec1::lemma_index_size_malformed(vx_data, vx_start); } }
@loop 0
    invariant
        vx_data == old(tape).data(),
        vx_start == old(tape).pos(),
        tape.data() == vx_data,
        tape.fault() == old(tape).fault(),
        fits(vx_data, vx_start, 3),
        count == be16(vx_data, vx_start),
        count > 0,
        offset_size == vx_data[vx_start + 2],
        vx_n == offsets@.len(),
        vx_n > 0 ==> 1 <= offset_size <= 4 && fits(vx_data, vx_start + 3, vx_n * offset_size),
        tape.pos() == vx_start + 3 + vx_n * offset_size,
        located(vx_data, vx_start, offsets@),
@loop_entry 0
    proof {
        crate::spec1::lemma_step(vx_n as int, offset_size as int);
        if !(1 <= offset_size <= 4) || !fits(vx_data, vx_start + 3, vx_n * offset_size + offset_size) {
            crate::spec1::lemma_index_offsets_malformed(vx_data, vx_start, vx_n as int);
        }
        crate::spec1::lemma_index_offset(vx_data, vx_start, vx_n as int);
    }
@loop 1
    invariant
        vx_data == old(tape).data(),
        vx_start == old(tape).pos(),
        tape.data() == vx_data,
        tape.fault() == old(tape).fault(),
        fits(vx_data, vx_start, 3),
        count == be16(vx_data, vx_start),
        count > 0,
        offset_size == vx_data[vx_start + 2],
        1 <= offset_size <= 4,
        fits(vx_data, vx_start + 3, (count + 1) * offset_size),
        offsets@.len() == count + 1,
        located(vx_data, vx_start, offsets@),
        crate::spec1::index_offset(vx_data, vx_start, 0) == 1,
        forall|j: int| 0 <= j < i ==> #[trigger] crate::spec1::index_offset(vx_data, vx_start, j) <= crate::spec1::index_offset(vx_data, vx_start, j + 1),
        tape.pos() == crate::spec1::index_base(vx_data, vx_start) + crate::spec1::index_offset(vx_data, vx_start, i as int),
        tape.pos() <= vx_data.len(),
        0 <= crate::spec1::index_base(vx_data, vx_start),
        data@.len() == i,
        objects(vx_data, vx_start, data@),
@post_loop 0
    proof {
        crate::spec1::lemma_index_offset(vx_data, vx_start, 0);
        assert(offsets@[0].0 == crate::spec1::index_offset(vx_data, vx_start, 0));
        if crate::spec1::index_offset(vx_data, vx_start, 0) != 1 {
            crate::spec1::lemma_index_first_malformed(vx_data, vx_start);
        }
        reveal(crate::spec1::index_base);
        assert((count + 1) * offset_size >= 2 * offset_size) by (nonlinear_arith) requires count >= 1, offset_size >= 0;
    }
@loop_entry 1
    proof {
        crate::spec1::lemma_index_offset(vx_data, vx_start, i as int);
        crate::spec1::lemma_index_offset(vx_data, vx_start, i + 1);
        assert(offsets@[i as int].0 == crate::spec1::index_offset(vx_data, vx_start, i as int));
        assert(offsets@[i + 1].0 == crate::spec1::index_offset(vx_data, vx_start, i + 1));
        let size = crate::spec1::index_offset(vx_data, vx_start, i + 1) - crate::spec1::index_offset(vx_data, vx_start, i as int);
        if size >= 0 {
            lemma_dec_bytes(vx_data, tape.pos(), size as nat);
            crate::spec1::lemma_index_ordered(vx_data, vx_start, i + 1, count as int);
        } else {
            crate::spec1::lemma_index_order_malformed(vx_data, vx_start, i as int);
        }
    }
@loop_exit 1
    proof {
        assert(data@[i as int]@ =~= crate::spec1::index_object(vx_data, vx_start, i as int));
    }
@tail
    proof {
        if vx_r is Ok {
            let v = crate::value::Read::abs(&vx_r->Ok_0);
            crate::spec1::lemma_index_complete(vx_data, vx_start);
            let w = crate::spec1::index_dec(vx_data, vx_start)->Good_0;
            assert(v.offsets =~= w.offsets);
            assert(v.data =~= w.data);
        }
    }
@before_return 
    proof {
        if vx_r is Ok {
            let v = crate::value::Read::abs(&vx_r->Ok_0);
            assert(v.offsets =~= crate::spec1::index_empty().offsets);
            assert(v.data =~= crate::spec1::index_empty().data);
        }
    }
@mod compact1::index
    // Offsets are those of an index.
    pub open spec fn located(data: Seq<u8>, pos: int, offsets: Seq<Offset>) -> bool {
        forall|i: int| 0 <= i < offsets.len() ==> (#[trigger] offsets[i]) == Offset(crate::spec1::index_offset(data, pos, i) as u32)
    }

    // Objects are those of an index.
    pub open spec fn objects(data: Seq<u8>, pos: int, to: Seq<Vec<u8>>) -> bool {
        forall|i: int| 0 <= i < to.len() ==> (#[trigger] to[i])@ == crate::spec1::index_object(data, pos, i)
    }

