// What a compact font set in the format of Adobe Technical Note 5176 decodes to, written from that
// document and independently of the code.
verus! {

pub mod spec1 {
    use vstd::prelude::*;
    use crate::prelude::*;
    use crate::compact1::number::Number;
    use crate::compact1::offset::Offset;
    use crate::compact1::operation::Operator;
    use crate::compact1::header::Header;
    use crate::spec_dict::*;

    // ---- numbers in dictionaries (TN5176 section 4)

    pub open spec fn number_dec(data: Seq<u8>, pos: int) -> Dec<Number> {
        if !fits(data, pos, 1) {
            Dec::Eof
        } else {
            let b0 = data[pos] as int;
            if 32 <= b0 <= 246 {
                Dec::Good(Number::Integer((b0 - 139) as i32), pos + 1)
            } else if 247 <= b0 <= 254 {
                if !fits(data, pos, 2) {
                    Dec::Eof
                } else if b0 <= 250 {
                    Dec::Good(Number::Integer(((b0 - 247) * 256 + data[pos + 1] as int + 108) as i32), pos + 2)
                } else {
                    Dec::Good(Number::Integer((-(b0 - 251) * 256 - data[pos + 1] as int - 108) as i32), pos + 2)
                }
            } else if b0 == 28 {
                if !fits(data, pos, 3) { Dec::Eof } else {
                    Dec::Good(Number::Integer(signed(be16(data, pos + 1), 0x1_0000) as i32), pos + 3)
                }
            } else if b0 == 29 {
                if !fits(data, pos, 5) { Dec::Eof } else {
                    Dec::Good(Number::Integer(signed(be32(data, pos + 1), 0x1_0000_0000) as i32), pos + 5)
                }
            } else if b0 == 30 {
                match real_dec(data, pos + 1) {
                    Dec::Good(value, p) => Dec::Good(Number::Real(value), p),
                    Dec::Eof => Dec::Eof,
                    _ => Dec::Bad,
                }
            } else {
                Dec::Bad
            }
        }
    }

    // The k-th nibble, the high one of a byte first.
    pub open spec fn nibble(data: Seq<u8>, pos: int, k: nat) -> int {
        if k % 2 == 0 { data[pos + k as int / 2] as int / 16 } else { data[pos + k as int / 2] as int % 16 }
    }

    pub open spec fn nibble_text(n: int) -> Seq<char> {
        if 0 <= n <= 9 { seq![((48 + n) as u8) as char] }
        else if n == 10 { seq!['.'] }
        else if n == 11 { seq!['e'] }
        else if n == 12 { seq!['e', '-'] }
        else { seq!['-'] }
    }

    // The text of a real number, up to the nibble 15; nibble 13 is reserved.
    pub open spec fn real_text(data: Seq<u8>, pos: int, k: nat, text: Seq<char>) -> Dec<Seq<char>>
        decreases 2 * (data.len() - pos) - k
    {
        if !fits(data, pos + k as int / 2, 1) || pos < 0 {
            Dec::Eof
        } else {
            let n = nibble(data, pos, k);
            if n == 15 {
                Dec::Good(text, pos + k as int / 2 + 1)
            } else if n == 13 {
                Dec::Bad
            } else {
                real_text(data, pos, k + 1, text + nibble_text(n))
            }
        }
    }

    pub open spec fn real_dec(data: Seq<u8>, pos: int) -> Dec<f32> {
        match real_text(data, pos, 0, seq![]) {
            Dec::Good(text, p) => match f32_parse(text) {
                Some(value) => Dec::Good(value, p),
                None => Dec::Bad,
            },
            Dec::Eof => Dec::Eof,
            _ => Dec::Bad,
        }
    }

    // ---- offsets and indices (section 5)

    pub open spec fn be(data: Seq<u8>, pos: int, size: int) -> int {
        if size == 1 { data[pos] as int }
        else if size == 2 { be16(data, pos) }
        else if size == 3 { be24(data, pos) }
        else { be32(data, pos) }
    }

    pub open spec fn offset_dec(data: Seq<u8>, pos: int, size: int) -> Dec<Offset> {
        if !(1 <= size <= 4) {
            Dec::Bad
        } else if !fits(data, pos, size) {
            Dec::Eof
        } else {
            Dec::Good(Offset(be(data, pos, size) as u32), pos + size)
        }
    }

    pub ghost struct IndexV {
        pub count: int,
        pub offset_size: int,
        pub offsets: Seq<Offset>,
        pub data: Seq<Seq<u8>>,
    }

    pub open spec fn index_empty() -> IndexV {
        IndexV { count: 0, offset_size: 0, offsets: seq![], data: seq![] }
    }

    // The i-th offset of the index at a position.
    #[verifier::opaque]
    pub open spec fn index_offset(data: Seq<u8>, pos: int, i: int) -> int {
        let size = data[pos + 2] as int;
        be(data, pos + 3 + i * size, size)
    }

    // The position that offsets are relative to: the byte before the objects.
    #[verifier::opaque]
    pub open spec fn index_base(data: Seq<u8>, pos: int) -> int {
        pos + 3 + (be16(data, pos) + 1) * data[pos + 2] as int - 1
    }

    pub open spec fn index_object(data: Seq<u8>, pos: int, i: int) -> Seq<u8> {
        data.subrange(index_base(data, pos) + index_offset(data, pos, i), index_base(data, pos) + index_offset(data, pos, i + 1))
    }

    #[verifier::opaque]
    pub open spec fn index_well_formed(data: Seq<u8>, pos: int) -> bool {
        let count = be16(data, pos);
        let size = data[pos + 2] as int;
        &&& fits(data, pos, 3)
        &&& 1 <= size <= 4
        &&& fits(data, pos + 3, (count + 1) * size)
        &&& index_offset(data, pos, 0) == 1
        &&& forall|i: int| 0 <= i < count ==> #[trigger] index_offset(data, pos, i) <= index_offset(data, pos, i + 1)
        &&& index_base(data, pos) + index_offset(data, pos, count) <= data.len()
    }

    pub open spec fn index_dec(data: Seq<u8>, pos: int) -> Dec<IndexV> {
        if !fits(data, pos, 2) {
            Dec::Eof
        } else {
            let count = be16(data, pos);
            if count == 0 {
                Dec::Good(index_empty(), pos + 2)
            } else if index_well_formed(data, pos) {
                Dec::Good(
                    IndexV {
                        count,
                        offset_size: data[pos + 2] as int,
                        offsets: Seq::new((count + 1) as nat, |i: int| Offset(index_offset(data, pos, i) as u32)),
                        data: Seq::new(count as nat, |i: int| index_object(data, pos, i)),
                    },
                    index_base(data, pos) + index_offset(data, pos, count),
                )
            } else {
                Dec::Fail
            }
        }
    }

    // ---- the header (section 6)

    pub open spec fn header_dec(data: Seq<u8>, pos: int) -> Dec<Header> {
        if fits(data, pos, 4) {
            Dec::Good(Header { major: data[pos], minor: data[pos + 1], header_size: data[pos + 2], offset_size: data[pos + 3] }, pos + 4)
        } else {
            Dec::Eof
        }
    }

    // ---- dictionaries (section 4)

    pub open spec fn starts_number(b: int) -> bool {
        b == 28 || b == 29 || b == 30 || 32 <= b <= 254
    }

    // An operator with its operands, which precede it.
    pub open spec fn operation_dec(data: Seq<u8>, pos: int, operands: Seq<Number>) -> Dec<(Operator, Seq<Number>)>
        decreases data.len() - pos
    {
        if !fits(data, pos, 1) {
            Dec::Eof
        } else if starts_number(data[pos] as int) {
            match number_dec(data, pos) {
                Dec::Good(value, p) => if pos < p <= data.len() { operation_dec(data, p, operands.push(value)) } else { Dec::Open },
                Dec::Eof => Dec::Eof,
                _ => Dec::Bad,
            }
        } else if data[pos] == 12 && !fits(data, pos, 2) {
            Dec::Eof
        } else {
            let length = if data[pos] == 12 { 2int } else { 1 };
            let code = if data[pos] == 12 { 12 * 256 + data[pos + 1] as int } else { data[pos] as int };
            match dict_operator(code) {
                Some(operator) => Dec::Good((operator, operands), pos + length),
                None => Dec::Bad,
            }
        }
    }

    pub type Dict = Map<Operator, Seq<Number>>;

    // All operations up to the end of the data; an incomplete one at the end does not count.
    pub open spec fn dict_dec(data: Seq<u8>, pos: int, dict: Dict) -> Dec<Dict>
        decreases data.len() - pos
    {
        match operation_dec(data, pos, seq![]) {
            Dec::Good((operator, operands), p) => if pos < p <= data.len() { dict_dec(data, p, dict.insert(operator, operands)) } else { Dec::Open },
            Dec::Eof => Dec::Somewhere(dict),
            _ => Dec::Bad,
        }
    }

    // The operands of an operator: those given or those by default.
    pub open spec fn dict_get(dict: Dict, operator: Operator) -> Option<Seq<Number>> {
        if dict.contains_key(operator) { Some(dict[operator]) } else { dict_default(operator) }
    }

    pub open spec fn dict_single(dict: Dict, operator: Operator) -> Option<Number> {
        match dict_get(dict, operator) {
            Some(operands) => if operands.len() > 0 { Some(operands[0]) } else { None },
            None => None,
        }
    }

    pub open spec fn dict_double(dict: Dict, operator: Operator) -> Option<(Number, Number)> {
        match dict_get(dict, operator) {
            Some(operands) => if operands.len() > 1 { Some((operands[0], operands[1])) } else { None },
            None => None,
        }
    }

    // An offset or a size.
    pub open spec fn natural(value: Option<Number>) -> Option<int> {
        match value {
            Some(Number::Integer(value)) => if value >= 0 { Some(value as int) } else { None },
            _ => None,
        }
    }

    // ---- string identifiers (section 10)

    pub open spec fn is_string_id(value: Number) -> bool {
        value matches Number::Integer(value) && 0 <= value <= 65535
    }

    pub open spec fn string_id(value: Number) -> u16 {
        value->Integer_0 as u16
    }

    // ---- lemmas

    pub proof fn lemma_casts()
        ensures
            forall|a: u16| #![trigger a as i16] (a as i16) as int == signed(a as int, 0x1_0000),
            forall|a: u32| #![trigger a as i32] (a as i32) as int == signed(a as int, 0x1_0000_0000),
    {
        assert forall|a: u16| #![trigger a as i16] (a as i16) as int == signed(a as int, 0x1_0000) by {
            assert(a < 0x8000u16 ==> (a as i16) >= 0 && (a as i16) as u16 == a) by (bit_vector);
            assert(a >= 0x8000u16 ==> (a as i16) as i32 == (a as i32) - 0x1_0000i32) by (bit_vector);
        }
        assert forall|a: u32| #![trigger a as i32] (a as i32) as int == signed(a as int, 0x1_0000_0000) by {
            assert(a < 0x8000_0000u32 ==> (a as i32) >= 0 && (a as i32) as u32 == a) by (bit_vector);
            assert(a >= 0x8000_0000u32 ==> (a as i32) as i64 == (a as i64) - 0x1_0000_0000i64) by (bit_vector);
        }
    }

    pub proof fn lemma_nibbles(b: u8)
        ensures b >> 4 == b / 16, b & 0x0f == b % 16, b >> 4 <= 15, b & 0x0f <= 15
    {
        assert(b >> 4 == b / 16) by (bit_vector);
        assert(b & 0x0f == b % 16) by (bit_vector);
    }

    pub proof fn lemma_step(i: int, size: int)
        ensures (i + 1) * size == i * size + size
    {
        assert((i + 1) * size == i * size + size) by (nonlinear_arith);
    }

    pub proof fn lemma_mul_le(i: int, j: int, size: int)
        requires i <= j, size >= 0
        ensures i * size <= j * size
    {
        assert(i * size <= j * size) by (nonlinear_arith) requires i <= j, size >= 0;
    }

    pub proof fn lemma_index_offset(data: Seq<u8>, pos: int, i: int)
        ensures
            1 <= data[pos + 2] <= 4 ==> index_offset(data, pos, i) == be(data, pos + 3 + i * data[pos + 2] as int, data[pos + 2] as int),
            0 <= index_offset(data, pos, i) <= u32::MAX,
    {
        reveal(index_offset);
    }

    // The ways in which an index is malformed.
    pub proof fn lemma_index_size_malformed(data: Seq<u8>, pos: int)
        requires
            !fits(data, pos, 3),
        ensures
            !index_well_formed(data, pos),
    {
        reveal(index_well_formed);
    }

    pub proof fn lemma_index_offsets_malformed(data: Seq<u8>, pos: int, n: int)
        requires
            0 <= n <= be16(data, pos),
            !(1 <= data[pos + 2] <= 4) || !fits(data, pos + 3, n * data[pos + 2] + data[pos + 2]),
        ensures
            !index_well_formed(data, pos),
    {
        reveal(index_well_formed);
        lemma_step(n, data[pos + 2] as int);
        lemma_mul_le(n + 1, be16(data, pos) + 1, data[pos + 2] as int);
    }

    pub proof fn lemma_index_order_malformed(data: Seq<u8>, pos: int, i: int)
        requires
            0 <= i < be16(data, pos),
            index_offset(data, pos, i) > index_offset(data, pos, i + 1),
        ensures
            !index_well_formed(data, pos),
    {
        reveal(index_well_formed);
    }

    pub proof fn lemma_index_first_malformed(data: Seq<u8>, pos: int)
        requires
            index_offset(data, pos, 0) != 1,
        ensures
            !index_well_formed(data, pos),
    {
        reveal(index_well_formed);
    }

    pub proof fn lemma_index_complete(data: Seq<u8>, pos: int)
        requires
            fits(data, pos, 3),
            1 <= data[pos + 2] <= 4,
            fits(data, pos + 3, (be16(data, pos) + 1) * data[pos + 2]),
            index_offset(data, pos, 0) == 1,
            forall|i: int| 0 <= i < be16(data, pos) ==> #[trigger] index_offset(data, pos, i) <= index_offset(data, pos, i + 1),
            index_base(data, pos) + index_offset(data, pos, be16(data, pos)) <= data.len(),
        ensures
            index_well_formed(data, pos),
    {
        reveal(index_well_formed);
    }

    // A well-formed index has its objects within the data.
    pub proof fn lemma_index_ordered(data: Seq<u8>, pos: int, i: int, count: int)
        requires 0 <= i <= count, count == be16(data, pos)
        ensures
            index_well_formed(data, pos) ==> index_offset(data, pos, i) <= index_offset(data, pos, count),
            index_well_formed(data, pos) ==> index_base(data, pos) + index_offset(data, pos, i) <= data.len(),
        decreases count - i
    {
        reveal(index_well_formed);
        if i < count { lemma_index_ordered(data, pos, i + 1, count); }
    }

    // Decoding proceeds, and stays within the data.
    pub proof fn lemma_real_text_advances(data: Seq<u8>, pos: int, k: nat, text: Seq<char>)
        requires pos >= 0
        ensures match real_text(data, pos, k, text) {
            Dec::Good(_, p) => pos < p <= data.len(),
            Dec::Eof => true,
            Dec::Bad => true,
            _ => false,
        }
        decreases 2 * (data.len() - pos) - k
    {
        if fits(data, pos + k as int / 2, 1) && nibble(data, pos, k) != 15 && nibble(data, pos, k) != 13 {
            lemma_real_text_advances(data, pos, k + 1, text + nibble_text(nibble(data, pos, k)));
        }
    }

    pub proof fn lemma_number_advances(data: Seq<u8>, pos: int)
        ensures match number_dec(data, pos) {
            Dec::Good(_, p) => 0 <= pos < p <= data.len(),
            Dec::Eof => true,
            Dec::Bad => true,
            _ => false,
        }
    {
        if fits(data, pos, 1) {
            lemma_real_text_advances(data, pos + 1, 0, seq![]);
        }
    }

    pub proof fn lemma_operation_advances(data: Seq<u8>, pos: int, operands: Seq<Number>)
        ensures match operation_dec(data, pos, operands) {
            Dec::Good(_, p) => 0 <= pos < p <= data.len(),
            Dec::Eof => true,
            Dec::Bad => true,
            _ => false,
        }
        decreases data.len() - pos
    {
        lemma_number_advances(data, pos);
        if fits(data, pos, 1) && starts_number(data[pos] as int) {
            match number_dec(data, pos) {
                Dec::Good(value, p) => { lemma_operation_advances(data, p, operands.push(value)); }
                _ => {}
            }
        }
    }

    pub proof fn lemma_dict_decided(data: Seq<u8>, pos: int, dict: Dict)
        ensures dict_dec(data, pos, dict) is Somewhere || dict_dec(data, pos, dict) is Bad
        decreases data.len() - pos
    {
        lemma_operation_advances(data, pos, seq![]);
        match operation_dec(data, pos, seq![]) {
            Dec::Good((operator, operands), p) => { lemma_dict_decided(data, p, dict.insert(operator, operands)); }
            _ => {}
        }
    }
}

} // verus!
