use vstd::prelude::*;

verus! {

// typeface::q32
#[derive(Clone, Copy)]
#[allow(non_camel_case_types)]
pub struct q32(pub i32);

impl crate::value::Read for q32 {
    type Abs = i32;
    open spec fn abs(&self) -> i32 { self.0 }
    open spec fn dec(data: Seq<u8>, pos: int) -> crate::prelude::Dec<i32> {
        <i32 as crate::value::Read>::dec(data, pos)
    }
    // The body is that of typeface 0.5.0.
    fn read<T: crate::tape::Read>(tape: &mut T) -> (r: crate::Result<q32>) {
        use crate::tape::Ext;
        Ok(q32(tape.take()?))
    }
}


pub mod std_model {
    use vstd::prelude::*;
    use vstd::std_specs::ops::*;
    use vstd::std_specs::cmp::*;
    use crate::prelude::*;

    // ---- panics: reaching one is a violation of its precondition.
    pub fn vpanic() -> !
        requires
            false, //@panic
    {
        loop
            decreases 0int,
        {
        }
    }

    // The end of a match arm that belongs to another group of a split function.
    #[verifier::external_body]
    pub fn vother() -> !
        ensures
            false,
    {
        panic!()
    }

    // ---- std::mem
    pub trait VTake: Sized {
        spec fn empty(self) -> bool;
        fn vtake(&mut self) -> (r: Self)
            ensures r == *old(self), final(self).empty();
    }
    impl<V> VTake for Vec<V> {
        open spec fn empty(self) -> bool { self@ == Seq::<V>::empty() }
        fn vtake(&mut self) -> (r: Self) { vreplace(self, Vec::new()) }
    }
    impl<V> VTake for Option<V> {
        open spec fn empty(self) -> bool { self is None }
        fn vtake(&mut self) -> (r: Self) { vreplace(self, None) }
    }
    pub fn vreplace<V>(place: &mut V, value: V) -> (r: V)
        ensures r == *old(place), *final(place) == value
    {
        let mut value = value;
        core::mem::swap(place, &mut value);
        value
    }
    pub fn vdrop<V>(value: V) {}

    // ---- conversions, as traits with functional contracts
    pub trait VTryFrom<V>: Sized {
        spec fn converts(value: V) -> bool;
        spec fn converted(value: V, to: Self) -> bool;
        fn v_try_from(value: V) -> (r: crate::Result<Self>)
            ensures
                r is Ok <==> Self::converts(value), //@kind functional
                r is Ok ==> Self::converted(value, r->Ok_0), //@kind functional
            ;
    }
    pub trait VTryInto<U>: Sized {
        spec fn into_converts(self) -> bool;
        spec fn into_converted(self, to: U) -> bool;
        fn v_try_into(self) -> (r: crate::Result<U>)
            ensures
                r is Ok <==> self.into_converts(),
                r is Ok ==> self.into_converted(r->Ok_0);
    }
    impl<V, U: VTryFrom<V>> VTryInto<U> for V {
        open spec fn into_converts(self) -> bool { U::converts(self) }
        open spec fn into_converted(self, to: U) -> bool { U::converted(self, to) }
        fn v_try_into(self) -> (r: crate::Result<U>) {
            assert(<V as VTryInto<U>>::into_converts(self) == U::converts(self));
            assert(forall|to: U| #[trigger] <V as VTryInto<U>>::into_converted(self, to) == U::converted(self, to));
            U::v_try_from(self)
        }
    }
    pub trait VFrom<V>: Sized {
        spec fn from_spec(value: V) -> Self;
        fn v_from(value: V) -> (r: Self)
            ensures r == Self::from_spec(value); //@kind functional
    }
    pub trait VInto<U>: Sized {
        spec fn into_spec(self) -> U;
        fn v_into(self) -> (r: U)
            ensures r == self.into_spec();
    }
    impl<V, U: VFrom<V>> VInto<U> for V {
        open spec fn into_spec(self) -> U { U::from_spec(self) }
        fn v_into(self) -> (r: U) {
            assert(<V as VInto<U>>::into_spec(self) == U::from_spec(self));
            U::v_from(self)
        }
    }
    impl VFrom<crate::q32> for f32 {
        open spec fn from_spec(value: crate::q32) -> f32 { f32_fixed(value.0) }
        // typeface: (self.0 as f32) / SCALE with SCALE = 65536
        fn v_from(value: crate::q32) -> (r: f32) {
            broadcast use group_f32;
            (value.0 as f32) / 65536.0f32
        }
    }
    impl VFrom<u8> for f32 {
        open spec fn from_spec(value: u8) -> f32 { f32_of(value as i32) }
        fn v_from(value: u8) -> (r: f32) { broadcast use group_f32; (value as i32) as f32 }
    }
    impl VFrom<i8> for f32 {
        open spec fn from_spec(value: i8) -> f32 { f32_of(value as i32) }
        fn v_from(value: i8) -> (r: f32) { broadcast use group_f32; (value as i32) as f32 }
    }
    impl VFrom<u16> for f32 {
        open spec fn from_spec(value: u16) -> f32 { f32_of(value as i32) }
        fn v_from(value: u16) -> (r: f32) { broadcast use group_f32; (value as i32) as f32 }
    }
    impl VFrom<i16> for f32 {
        open spec fn from_spec(value: i16) -> f32 { f32_of(value as i32) }
        fn v_from(value: i16) -> (r: f32) { broadcast use group_f32; (value as i32) as f32 }
    }
    impl VFrom<f32> for f32 {
        open spec fn from_spec(value: f32) -> f32 { value }
        fn v_from(value: f32) -> (r: f32) { value }
    }

    // Integers of greater types.
    impl VFrom<bool> for u8 {
        open spec fn from_spec(value: bool) -> u8 { if value { 1 } else { 0 } }
        fn v_from(value: bool) -> (r: u8) { if value { 1 } else { 0 } }
    }
    impl VFrom<bool> for u16 {
        open spec fn from_spec(value: bool) -> u16 { if value { 1 } else { 0 } }
        fn v_from(value: bool) -> (r: u16) { if value { 1 } else { 0 } }
    }
    impl VFrom<bool> for u32 {
        open spec fn from_spec(value: bool) -> u32 { if value { 1 } else { 0 } }
        fn v_from(value: bool) -> (r: u32) { if value { 1 } else { 0 } }
    }
    impl VFrom<bool> for u64 {
        open spec fn from_spec(value: bool) -> u64 { if value { 1 } else { 0 } }
        fn v_from(value: bool) -> (r: u64) { if value { 1 } else { 0 } }
    }
    impl VFrom<bool> for usize {
        open spec fn from_spec(value: bool) -> usize { if value { 1 } else { 0 } }
        fn v_from(value: bool) -> (r: usize) { if value { 1 } else { 0 } }
    }
    impl VFrom<bool> for i32 {
        open spec fn from_spec(value: bool) -> i32 { if value { 1 } else { 0 } }
        fn v_from(value: bool) -> (r: i32) { if value { 1 } else { 0 } }
    }
    impl VFrom<bool> for i64 {
        open spec fn from_spec(value: bool) -> i64 { if value { 1 } else { 0 } }
        fn v_from(value: bool) -> (r: i64) { if value { 1 } else { 0 } }
    }
    impl VFrom<u8> for u16 {
        open spec fn from_spec(value: u8) -> u16 { value as u16 }
        fn v_from(value: u8) -> (r: u16) { value as u16 }
    }
    impl VFrom<u8> for u32 {
        open spec fn from_spec(value: u8) -> u32 { value as u32 }
        fn v_from(value: u8) -> (r: u32) { value as u32 }
    }
    impl VFrom<u8> for u64 {
        open spec fn from_spec(value: u8) -> u64 { value as u64 }
        fn v_from(value: u8) -> (r: u64) { value as u64 }
    }
    impl VFrom<u8> for i16 {
        open spec fn from_spec(value: u8) -> i16 { value as i16 }
        fn v_from(value: u8) -> (r: i16) { value as i16 }
    }
    impl VFrom<u8> for i32 {
        open spec fn from_spec(value: u8) -> i32 { value as i32 }
        fn v_from(value: u8) -> (r: i32) { value as i32 }
    }
    impl VFrom<u8> for i64 {
        open spec fn from_spec(value: u8) -> i64 { value as i64 }
        fn v_from(value: u8) -> (r: i64) { value as i64 }
    }
    impl VFrom<u8> for usize {
        open spec fn from_spec(value: u8) -> usize { value as usize }
        fn v_from(value: u8) -> (r: usize) { value as usize }
    }
    impl VFrom<u16> for u32 {
        open spec fn from_spec(value: u16) -> u32 { value as u32 }
        fn v_from(value: u16) -> (r: u32) { value as u32 }
    }
    impl VFrom<u16> for u64 {
        open spec fn from_spec(value: u16) -> u64 { value as u64 }
        fn v_from(value: u16) -> (r: u64) { value as u64 }
    }
    impl VFrom<u16> for i32 {
        open spec fn from_spec(value: u16) -> i32 { value as i32 }
        fn v_from(value: u16) -> (r: i32) { value as i32 }
    }
    impl VFrom<u16> for i64 {
        open spec fn from_spec(value: u16) -> i64 { value as i64 }
        fn v_from(value: u16) -> (r: i64) { value as i64 }
    }
    impl VFrom<u16> for usize {
        open spec fn from_spec(value: u16) -> usize { value as usize }
        fn v_from(value: u16) -> (r: usize) { value as usize }
    }
    impl VFrom<u32> for u64 {
        open spec fn from_spec(value: u32) -> u64 { value as u64 }
        fn v_from(value: u32) -> (r: u64) { value as u64 }
    }
    impl VFrom<u32> for i64 {
        open spec fn from_spec(value: u32) -> i64 { value as i64 }
        fn v_from(value: u32) -> (r: i64) { value as i64 }
    }
    impl VFrom<i8> for i16 {
        open spec fn from_spec(value: i8) -> i16 { value as i16 }
        fn v_from(value: i8) -> (r: i16) { value as i16 }
    }
    impl VFrom<i8> for i32 {
        open spec fn from_spec(value: i8) -> i32 { value as i32 }
        fn v_from(value: i8) -> (r: i32) { value as i32 }
    }
    impl VFrom<i8> for i64 {
        open spec fn from_spec(value: i8) -> i64 { value as i64 }
        fn v_from(value: i8) -> (r: i64) { value as i64 }
    }
    impl VFrom<i16> for i32 {
        open spec fn from_spec(value: i16) -> i32 { value as i32 }
        fn v_from(value: i16) -> (r: i32) { value as i32 }
    }
    impl VFrom<i16> for i64 {
        open spec fn from_spec(value: i16) -> i64 { value as i64 }
        fn v_from(value: i16) -> (r: i64) { value as i64 }
    }
    impl VFrom<i32> for i64 {
        open spec fn from_spec(value: i32) -> i64 { value as i64 }
        fn v_from(value: i32) -> (r: i64) { value as i64 }
    }

    // ---- orders
    pub trait VCmp: Sized {
        spec fn less(&self, other: &Self) -> bool;
        spec fn equal(&self, other: &Self) -> bool;
        fn vcmp(&self, other: &Self) -> (r: core::cmp::Ordering)
            ensures
                r == core::cmp::Ordering::Less <==> self.less(other),
                r == core::cmp::Ordering::Equal <==> self.equal(other),
                r == core::cmp::Ordering::Greater <==> !self.less(other) && !self.equal(other);
    }
    impl VCmp for i32 {
        open spec fn less(&self, other: &Self) -> bool { *self < *other }
        open spec fn equal(&self, other: &Self) -> bool { *self == *other }
        fn vcmp(&self, other: &Self) -> (r: core::cmp::Ordering) {
            if *self < *other { core::cmp::Ordering::Less } else if *self == *other { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }
        }
    }
    impl VCmp for usize {
        open spec fn less(&self, other: &Self) -> bool { *self < *other }
        open spec fn equal(&self, other: &Self) -> bool { *self == *other }
        fn vcmp(&self, other: &Self) -> (r: core::cmp::Ordering) {
            if *self < *other { core::cmp::Ordering::Less } else if *self == *other { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }
        }
    }

    // ---- negation; for integers it must not overflow
    pub trait VNeg: Sized {
        spec fn neg_fits(self) -> bool;
        spec fn negated(self) -> Self;
        fn vneg(self) -> (r: Self)
            requires self.neg_fits(),
            ensures r == self.negated();
    }
    impl VNeg for i32 {
        open spec fn neg_fits(self) -> bool { self != i32::MIN }
        open spec fn negated(self) -> i32 { (0 - self) as i32 }
        fn vneg(self) -> (r: i32) {
            assert(self.neg_fits() == (self != i32::MIN));
            assert(self.negated() == (0 - self) as i32);
            -self
        }
    }
    impl VNeg for i64 {
        open spec fn neg_fits(self) -> bool { self != i64::MIN }
        open spec fn negated(self) -> i64 { (0 - self) as i64 }
        fn vneg(self) -> (r: i64) { -self }
    }
    impl VNeg for f32 {
        open spec fn neg_fits(self) -> bool { true }
        open spec fn negated(self) -> f32 { f32_neg(self) }
        #[verifier::external_body]
        fn vneg(self) -> (r: f32) { -self }
    }

    // ---- f32: the operations are functions of their operands (IEEE 754, the payload of a NaN aside)
    pub uninterp spec fn f32_neg(a: f32) -> f32;
    pub uninterp spec fn f32_abs(a: f32) -> f32;
    pub uninterp spec fn f32_sqrt(a: f32) -> f32;
    pub uninterp spec fn f32_of(a: i32) -> f32;
    pub uninterp spec fn i32_of(a: f32) -> i32;
    pub open spec fn f32_add(a: f32, b: f32) -> f32 { a.add_spec(b) }
    pub open spec fn f32_sub(a: f32, b: f32) -> f32 { a.sub_spec(b) }
    pub open spec fn f32_mul(a: f32, b: f32) -> f32 { a.mul_spec(b) }
    pub open spec fn f32_div(a: f32, b: f32) -> f32 { a.div_spec(b) }
    pub open spec fn f32_eq(a: f32, b: f32) -> bool { a.eq_spec(&b) }
    pub open spec fn f32_le(a: f32, b: f32) -> bool {
        a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Less) || a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Equal)
    }
    pub open spec fn f32_fixed(a: i32) -> f32 { f32_div(f32_of(a), 65536.0f32) }
    // A number without a fractional part, and in the range of 32-bit integers.
    pub open spec fn f32_is_integer(a: f32) -> bool { f32_eq(f32_of(i32_of(a)), a) }

    pub broadcast axiom fn axiom_f32_add_req(a: f32, b: f32)
        ensures #[trigger] a.add_req(b);
    pub broadcast axiom fn axiom_f32_sub_req(a: f32, b: f32)
        ensures #[trigger] a.sub_req(b);
    pub broadcast axiom fn axiom_f32_mul_req(a: f32, b: f32)
        ensures #[trigger] a.mul_req(b);
    pub broadcast axiom fn axiom_f32_div_req(a: f32, b: f32)
        ensures #[trigger] a.div_req(b);
    pub broadcast axiom fn axiom_f32_obeys_add()
        ensures #[trigger] <f32 as AddSpec<f32>>::obeys_add_spec();
    pub broadcast axiom fn axiom_f32_obeys_sub()
        ensures #[trigger] <f32 as SubSpec<f32>>::obeys_sub_spec();
    pub broadcast axiom fn axiom_f32_obeys_mul()
        ensures #[trigger] <f32 as MulSpec<f32>>::obeys_mul_spec();
    pub broadcast axiom fn axiom_f32_obeys_div()
        ensures #[trigger] <f32 as DivSpec<f32>>::obeys_div_spec();
    pub broadcast axiom fn axiom_f32_obeys_eq()
        ensures #[trigger] <f32 as PartialEqSpec<f32>>::obeys_eq_spec();
    pub broadcast axiom fn axiom_f32_obeys_cmp()
        ensures #[trigger] <f32 as PartialOrdSpec<f32>>::obeys_partial_cmp_spec();
    pub broadcast axiom fn axiom_f32_cast(a: f32, o: i32)
        requires #[trigger] vstd::float::float_cast_spec::<f32, i32>(a, o),
        ensures o == i32_of(a);
    pub broadcast axiom fn axiom_i32_cast(a: i32, o: f32)
        requires #[trigger] vstd::float::float_cast_spec::<i32, f32>(a, o),
        ensures o == f32_of(a);
    pub broadcast axiom fn axiom_f32_add_commutes(a: f32, b: f32)
        ensures #[trigger] a.add_spec(b) == b.add_spec(a);
    pub broadcast axiom fn axiom_f32_mul_commutes(a: f32, b: f32)
        ensures #[trigger] a.mul_spec(b) == b.mul_spec(a);
    pub broadcast axiom fn axiom_f32_eq_commutes(a: f32, b: f32)
        ensures #[trigger] a.eq_spec(&b) == b.eq_spec(&a);

    pub broadcast group group_f32 {
        axiom_f32_add_req, axiom_f32_sub_req, axiom_f32_mul_req, axiom_f32_div_req,
        axiom_f32_obeys_add, axiom_f32_obeys_sub, axiom_f32_obeys_mul, axiom_f32_obeys_div,
        axiom_f32_obeys_eq, axiom_f32_obeys_cmp, axiom_f32_cast, axiom_i32_cast,
        axiom_f32_add_commutes, axiom_f32_mul_commutes, axiom_f32_eq_commutes,
    }

    pub assume_specification[ f32::abs ](a: f32) -> (r: f32)
        ensures r == f32_abs(a);
    pub assume_specification[ f32::sqrt ](a: f32) -> (r: f32)
        ensures r == f32_sqrt(a);

    // ---- further arithmetic of the standard library
    pub assume_specification[ i32::rem_euclid ](a: i32, b: i32) -> (r: i32)
        requires b != 0, !(a == i32::MIN && b == -1),
        ensures r == a as int % b as int;
    pub assume_specification[ i32::abs ](a: i32) -> (r: i32)
        requires a != i32::MIN,
        ensures r == if a < 0 { -a } else { a as int };
    pub assume_specification[ i32::unsigned_abs ](a: i32) -> (r: u32)
        ensures r == if a < 0 { -a } else { a as int };
    pub assume_specification[ i32::is_negative ](a: i32) -> (r: bool)
        ensures r == (a < 0);
    pub assume_specification[ i32::is_positive ](a: i32) -> (r: bool)
        ensures r == (a > 0);
    pub assume_specification[ i32::signum ](a: i32) -> (r: i32)
        ensures r == if a < 0 { -1int } else if a == 0 { 0 } else { 1 };
    pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize)
        requires b != 0,
        ensures r == a / b + if a % b > 0 { 1int } else { 0 };
    pub assume_specification[ u32::div_ceil ](a: u32, b: u32) -> (r: u32)
        requires b != 0,
        ensures r == a / b + if a % b > 0 { 1int } else { 0 };
    pub assume_specification[ usize::abs_diff ](a: usize, b: usize) -> (r: usize)
        ensures r == if a < b { b - a } else { a - b };

    // `v[from..].rotate_right(by)` as its documentation has it.
    pub fn vrotate_right(v: &mut Vec<f32>, from: usize, by: usize)
        requires from <= old(v)@.len(), by <= old(v)@.len() - from,
        ensures
            from < old(v)@.len() ==> final(v)@ == crate::spec2::rolled(old(v)@, old(v)@.len() - from, by as int),
            from == old(v)@.len() ==> final(v)@ == old(v)@,
    {
        let ghost span = v@.len() - from;
        let ghost before = v@;
        if from == v.len() {
            return;
        }
        proof { crate::spec2::lemma_rolled_not(v@, span); }
        for i in 0..by
            invariant
                from < before.len(), span == before.len() - from, v@.len() == before.len(),
                v@ == crate::spec2::rolled(before, span, i as int),
        {
            proof { crate::spec2::lemma_rolled_once(before, span, i as int); crate::spec2::lemma_rolled_len(before, span, i as int); }
            let top = v.pop();
            v.insert(from, top.unwrap());
        }
    }
    pub fn vrotate_left(v: &mut Vec<f32>, from: usize, by: usize)
        requires from <= old(v)@.len(), by <= old(v)@.len() - from,
        ensures
            from < old(v)@.len() ==> final(v)@ == crate::spec2::rolled(old(v)@, old(v)@.len() - from, -(by as int)),
            from == old(v)@.len() ==> final(v)@ == old(v)@,
    {
        let ghost span = v@.len() - from;
        let ghost before = v@;
        if from == v.len() {
            return;
        }
        proof { crate::spec2::lemma_rolled_not(v@, span); }
        for i in 0..by
            invariant
                from < before.len(), span == before.len() - from, v@.len() == before.len(),
                v@ == crate::spec2::rolled(before, span, -(i as int)),
        {
            proof { crate::spec2::lemma_rolled_once(before, span, -(i as int)); crate::spec2::lemma_rolled_len(before, span, -(i as int)); }
            let low = v.remove(from);
            v.push(low);
        }
    }

    // ---- bits
    // Shifts and masks are arithmetic; each is shown by bit blasting.
    pub broadcast proof fn lemma_u8_shr_1(x: u8)
        ensures #[trigger] (x >> 1) == x / 2,
    { assert(x >> 1 == x / 2) by (bit_vector); }
    pub broadcast proof fn lemma_u8_shr_2(x: u8)
        ensures #[trigger] (x >> 2) == x / 4,
    { assert(x >> 2 == x / 4) by (bit_vector); }
    pub broadcast proof fn lemma_u8_shr_3(x: u8)
        ensures #[trigger] (x >> 3) == x / 8,
    { assert(x >> 3 == x / 8) by (bit_vector); }
    pub broadcast proof fn lemma_u8_shr_4(x: u8)
        ensures #[trigger] (x >> 4) == x / 16,
    { assert(x >> 4 == x / 16) by (bit_vector); }
    pub broadcast proof fn lemma_u8_shr_7(x: u8)
        ensures #[trigger] (x >> 7) == x / 128,
    { assert(x >> 7 == x / 128) by (bit_vector); }
    pub broadcast proof fn lemma_u8_and_1(x: u8)
        ensures #[trigger] (x & 0x1) == x % 2,
    { assert(x & 0x1 == x % 2) by (bit_vector); }
    pub broadcast proof fn lemma_u8_and_2(x: u8)
        ensures #[trigger] (x & 0x3) == x % 4,
    { assert(x & 0x3 == x % 4) by (bit_vector); }
    pub broadcast proof fn lemma_u8_and_3(x: u8)
        ensures #[trigger] (x & 0x7) == x % 8,
    { assert(x & 0x7 == x % 8) by (bit_vector); }
    pub broadcast proof fn lemma_u8_and_4(x: u8)
        ensures #[trigger] (x & 0xf) == x % 16,
    { assert(x & 0xf == x % 16) by (bit_vector); }
    pub broadcast proof fn lemma_u8_and_7(x: u8)
        ensures #[trigger] (x & 0x7f) == x % 128,
    { assert(x & 0x7f == x % 128) by (bit_vector); }
    pub broadcast proof fn lemma_u8_and_8(x: u8)
        ensures #[trigger] (x & 0xff) == x,
    { assert(x & 0xff == x) by (bit_vector); }
    pub broadcast proof fn lemma_u8_or(a: u8, b: u8)
        ensures ({ &&& #[trigger] (a | b) == a | b
            &&& (a % 16 == 0 && b < 16 ==> a | b == a + b)
            &&& (b % 16 == 0 && a < 16 ==> a | b == a + b) }),
    { assert(a % 16 == 0 && b < 16 ==> a | b == a + b) by (bit_vector); assert(b % 16 == 0 && a < 16 ==> a | b == a + b) by (bit_vector); }
    pub broadcast proof fn lemma_u16_shr_1(x: u16)
        ensures #[trigger] (x >> 1) == x / 2,
    { assert(x >> 1 == x / 2) by (bit_vector); }
    pub broadcast proof fn lemma_u16_shr_2(x: u16)
        ensures #[trigger] (x >> 2) == x / 4,
    { assert(x >> 2 == x / 4) by (bit_vector); }
    pub broadcast proof fn lemma_u16_shr_3(x: u16)
        ensures #[trigger] (x >> 3) == x / 8,
    { assert(x >> 3 == x / 8) by (bit_vector); }
    pub broadcast proof fn lemma_u16_shr_4(x: u16)
        ensures #[trigger] (x >> 4) == x / 16,
    { assert(x >> 4 == x / 16) by (bit_vector); }
    pub broadcast proof fn lemma_u16_shr_7(x: u16)
        ensures #[trigger] (x >> 7) == x / 128,
    { assert(x >> 7 == x / 128) by (bit_vector); }
    pub broadcast proof fn lemma_u16_shr_8(x: u16)
        ensures #[trigger] (x >> 8) == x / 256,
    { assert(x >> 8 == x / 256) by (bit_vector); }
    pub broadcast proof fn lemma_u16_shr_12(x: u16)
        ensures #[trigger] (x >> 12) == x / 4096,
    { assert(x >> 12 == x / 4096) by (bit_vector); }
    pub broadcast proof fn lemma_u16_shl_1(x: u16)
        ensures x < 32768 ==> #[trigger] (x << 1) == x * 2,
    { assert(x < 32768 ==> x << 1 == x * 2) by (bit_vector); }
    pub broadcast proof fn lemma_u16_shl_4(x: u16)
        ensures x < 4096 ==> #[trigger] (x << 4) == x * 16,
    { assert(x < 4096 ==> x << 4 == x * 16) by (bit_vector); }
    pub broadcast proof fn lemma_u16_shl_8(x: u16)
        ensures x < 256 ==> #[trigger] (x << 8) == x * 256,
    { assert(x < 256 ==> x << 8 == x * 256) by (bit_vector); }
    pub broadcast proof fn lemma_u16_and_1(x: u16)
        ensures #[trigger] (x & 0x1) == x % 2,
    { assert(x & 0x1 == x % 2) by (bit_vector); }
    pub broadcast proof fn lemma_u16_and_2(x: u16)
        ensures #[trigger] (x & 0x3) == x % 4,
    { assert(x & 0x3 == x % 4) by (bit_vector); }
    pub broadcast proof fn lemma_u16_and_3(x: u16)
        ensures #[trigger] (x & 0x7) == x % 8,
    { assert(x & 0x7 == x % 8) by (bit_vector); }
    pub broadcast proof fn lemma_u16_and_4(x: u16)
        ensures #[trigger] (x & 0xf) == x % 16,
    { assert(x & 0xf == x % 16) by (bit_vector); }
    pub broadcast proof fn lemma_u16_and_7(x: u16)
        ensures #[trigger] (x & 0x7f) == x % 128,
    { assert(x & 0x7f == x % 128) by (bit_vector); }
    pub broadcast proof fn lemma_u16_and_8(x: u16)
        ensures #[trigger] (x & 0xff) == x % 256,
    { assert(x & 0xff == x % 256) by (bit_vector); }
    pub broadcast proof fn lemma_u16_or(a: u16, b: u16)
        ensures ({ &&& #[trigger] (a | b) == a | b
            &&& (a % 16 == 0 && b < 16 ==> a | b == a + b)
            &&& (b % 16 == 0 && a < 16 ==> a | b == a + b)
            &&& (a % 256 == 0 && b < 256 ==> a | b == a + b)
            &&& (b % 256 == 0 && a < 256 ==> a | b == a + b) }),
    { assert(a % 16 == 0 && b < 16 ==> a | b == a + b) by (bit_vector); assert(b % 16 == 0 && a < 16 ==> a | b == a + b) by (bit_vector); assert(a % 256 == 0 && b < 256 ==> a | b == a + b) by (bit_vector); assert(b % 256 == 0 && a < 256 ==> a | b == a + b) by (bit_vector); }
    pub broadcast proof fn lemma_u32_shr_1(x: u32)
        ensures #[trigger] (x >> 1) == x / 2,
    { assert(x >> 1 == x / 2) by (bit_vector); }
    pub broadcast proof fn lemma_u32_shr_2(x: u32)
        ensures #[trigger] (x >> 2) == x / 4,
    { assert(x >> 2 == x / 4) by (bit_vector); }
    pub broadcast proof fn lemma_u32_shr_3(x: u32)
        ensures #[trigger] (x >> 3) == x / 8,
    { assert(x >> 3 == x / 8) by (bit_vector); }
    pub broadcast proof fn lemma_u32_shr_4(x: u32)
        ensures #[trigger] (x >> 4) == x / 16,
    { assert(x >> 4 == x / 16) by (bit_vector); }
    pub broadcast proof fn lemma_u32_shr_7(x: u32)
        ensures #[trigger] (x >> 7) == x / 128,
    { assert(x >> 7 == x / 128) by (bit_vector); }
    pub broadcast proof fn lemma_u32_shr_8(x: u32)
        ensures #[trigger] (x >> 8) == x / 256,
    { assert(x >> 8 == x / 256) by (bit_vector); }
    pub broadcast proof fn lemma_u32_shr_12(x: u32)
        ensures #[trigger] (x >> 12) == x / 4096,
    { assert(x >> 12 == x / 4096) by (bit_vector); }
    pub broadcast proof fn lemma_u32_shr_16(x: u32)
        ensures #[trigger] (x >> 16) == x / 65536,
    { assert(x >> 16 == x / 65536) by (bit_vector); }
    pub broadcast proof fn lemma_u32_shr_24(x: u32)
        ensures #[trigger] (x >> 24) == x / 16777216,
    { assert(x >> 24 == x / 16777216) by (bit_vector); }
    pub broadcast proof fn lemma_u32_shl_1(x: u32)
        ensures x < 2147483648 ==> #[trigger] (x << 1) == x * 2,
    { assert(x < 2147483648 ==> x << 1 == x * 2) by (bit_vector); }
    pub broadcast proof fn lemma_u32_shl_4(x: u32)
        ensures x < 268435456 ==> #[trigger] (x << 4) == x * 16,
    { assert(x < 268435456 ==> x << 4 == x * 16) by (bit_vector); }
    pub broadcast proof fn lemma_u32_shl_8(x: u32)
        ensures x < 16777216 ==> #[trigger] (x << 8) == x * 256,
    { assert(x < 16777216 ==> x << 8 == x * 256) by (bit_vector); }
    pub broadcast proof fn lemma_u32_shl_16(x: u32)
        ensures x < 65536 ==> #[trigger] (x << 16) == x * 65536,
    { assert(x < 65536 ==> x << 16 == x * 65536) by (bit_vector); }
    pub broadcast proof fn lemma_u32_shl_24(x: u32)
        ensures x < 256 ==> #[trigger] (x << 24) == x * 16777216,
    { assert(x < 256 ==> x << 24 == x * 16777216) by (bit_vector); }
    pub broadcast proof fn lemma_u32_and_1(x: u32)
        ensures #[trigger] (x & 0x1) == x % 2,
    { assert(x & 0x1 == x % 2) by (bit_vector); }
    pub broadcast proof fn lemma_u32_and_2(x: u32)
        ensures #[trigger] (x & 0x3) == x % 4,
    { assert(x & 0x3 == x % 4) by (bit_vector); }
    pub broadcast proof fn lemma_u32_and_3(x: u32)
        ensures #[trigger] (x & 0x7) == x % 8,
    { assert(x & 0x7 == x % 8) by (bit_vector); }
    pub broadcast proof fn lemma_u32_and_4(x: u32)
        ensures #[trigger] (x & 0xf) == x % 16,
    { assert(x & 0xf == x % 16) by (bit_vector); }
    pub broadcast proof fn lemma_u32_and_7(x: u32)
        ensures #[trigger] (x & 0x7f) == x % 128,
    { assert(x & 0x7f == x % 128) by (bit_vector); }
    pub broadcast proof fn lemma_u32_and_8(x: u32)
        ensures #[trigger] (x & 0xff) == x % 256,
    { assert(x & 0xff == x % 256) by (bit_vector); }
    pub broadcast proof fn lemma_u32_and_16(x: u32)
        ensures #[trigger] (x & 0xffff) == x % 65536,
    { assert(x & 0xffff == x % 65536) by (bit_vector); }
    pub broadcast proof fn lemma_u32_or(a: u32, b: u32)
        ensures ({ &&& #[trigger] (a | b) == a | b
            &&& (a % 16 == 0 && b < 16 ==> a | b == a + b)
            &&& (b % 16 == 0 && a < 16 ==> a | b == a + b)
            &&& (a % 256 == 0 && b < 256 ==> a | b == a + b)
            &&& (b % 256 == 0 && a < 256 ==> a | b == a + b)
            &&& (a % 65536 == 0 && b < 65536 ==> a | b == a + b)
            &&& (b % 65536 == 0 && a < 65536 ==> a | b == a + b)
            &&& (a % 16777216 == 0 && b < 16777216 ==> a | b == a + b)
            &&& (b % 16777216 == 0 && a < 16777216 ==> a | b == a + b) }),
    { assert(a % 16 == 0 && b < 16 ==> a | b == a + b) by (bit_vector); assert(b % 16 == 0 && a < 16 ==> a | b == a + b) by (bit_vector); assert(a % 256 == 0 && b < 256 ==> a | b == a + b) by (bit_vector); assert(b % 256 == 0 && a < 256 ==> a | b == a + b) by (bit_vector); assert(a % 65536 == 0 && b < 65536 ==> a | b == a + b) by (bit_vector); assert(b % 65536 == 0 && a < 65536 ==> a | b == a + b) by (bit_vector); assert(a % 16777216 == 0 && b < 16777216 ==> a | b == a + b) by (bit_vector); assert(b % 16777216 == 0 && a < 16777216 ==> a | b == a + b) by (bit_vector); }
    pub broadcast proof fn lemma_u64_shr_1(x: u64)
        ensures #[trigger] (x >> 1) == x / 2,
    { assert(x >> 1 == x / 2) by (bit_vector); }
    pub broadcast proof fn lemma_u64_shr_2(x: u64)
        ensures #[trigger] (x >> 2) == x / 4,
    { assert(x >> 2 == x / 4) by (bit_vector); }
    pub broadcast proof fn lemma_u64_shr_3(x: u64)
        ensures #[trigger] (x >> 3) == x / 8,
    { assert(x >> 3 == x / 8) by (bit_vector); }
    pub broadcast proof fn lemma_u64_shr_4(x: u64)
        ensures #[trigger] (x >> 4) == x / 16,
    { assert(x >> 4 == x / 16) by (bit_vector); }
    pub broadcast proof fn lemma_u64_shr_7(x: u64)
        ensures #[trigger] (x >> 7) == x / 128,
    { assert(x >> 7 == x / 128) by (bit_vector); }
    pub broadcast proof fn lemma_u64_shr_8(x: u64)
        ensures #[trigger] (x >> 8) == x / 256,
    { assert(x >> 8 == x / 256) by (bit_vector); }
    pub broadcast proof fn lemma_u64_shr_12(x: u64)
        ensures #[trigger] (x >> 12) == x / 4096,
    { assert(x >> 12 == x / 4096) by (bit_vector); }
    pub broadcast proof fn lemma_u64_shr_16(x: u64)
        ensures #[trigger] (x >> 16) == x / 65536,
    { assert(x >> 16 == x / 65536) by (bit_vector); }
    pub broadcast proof fn lemma_u64_shr_24(x: u64)
        ensures #[trigger] (x >> 24) == x / 16777216,
    { assert(x >> 24 == x / 16777216) by (bit_vector); }
    pub broadcast proof fn lemma_u64_shl_1(x: u64)
        ensures x < 9223372036854775808 ==> #[trigger] (x << 1) == x * 2,
    { assert(x < 9223372036854775808 ==> x << 1 == x * 2) by (bit_vector); }
    pub broadcast proof fn lemma_u64_shl_4(x: u64)
        ensures x < 1152921504606846976 ==> #[trigger] (x << 4) == x * 16,
    { assert(x < 1152921504606846976 ==> x << 4 == x * 16) by (bit_vector); }
    pub broadcast proof fn lemma_u64_shl_8(x: u64)
        ensures x < 72057594037927936 ==> #[trigger] (x << 8) == x * 256,
    { assert(x < 72057594037927936 ==> x << 8 == x * 256) by (bit_vector); }
    pub broadcast proof fn lemma_u64_shl_16(x: u64)
        ensures x < 281474976710656 ==> #[trigger] (x << 16) == x * 65536,
    { assert(x < 281474976710656 ==> x << 16 == x * 65536) by (bit_vector); }
    pub broadcast proof fn lemma_u64_shl_24(x: u64)
        ensures x < 1099511627776 ==> #[trigger] (x << 24) == x * 16777216,
    { assert(x < 1099511627776 ==> x << 24 == x * 16777216) by (bit_vector); }
    pub broadcast proof fn lemma_u64_and_1(x: u64)
        ensures #[trigger] (x & 0x1) == x % 2,
    { assert(x & 0x1 == x % 2) by (bit_vector); }
    pub broadcast proof fn lemma_u64_and_2(x: u64)
        ensures #[trigger] (x & 0x3) == x % 4,
    { assert(x & 0x3 == x % 4) by (bit_vector); }
    pub broadcast proof fn lemma_u64_and_3(x: u64)
        ensures #[trigger] (x & 0x7) == x % 8,
    { assert(x & 0x7 == x % 8) by (bit_vector); }
    pub broadcast proof fn lemma_u64_and_4(x: u64)
        ensures #[trigger] (x & 0xf) == x % 16,
    { assert(x & 0xf == x % 16) by (bit_vector); }
    pub broadcast proof fn lemma_u64_and_7(x: u64)
        ensures #[trigger] (x & 0x7f) == x % 128,
    { assert(x & 0x7f == x % 128) by (bit_vector); }
    pub broadcast proof fn lemma_u64_and_8(x: u64)
        ensures #[trigger] (x & 0xff) == x % 256,
    { assert(x & 0xff == x % 256) by (bit_vector); }
    pub broadcast proof fn lemma_u64_and_16(x: u64)
        ensures #[trigger] (x & 0xffff) == x % 65536,
    { assert(x & 0xffff == x % 65536) by (bit_vector); }
    pub broadcast proof fn lemma_u64_or(a: u64, b: u64)
        ensures ({ &&& #[trigger] (a | b) == a | b
            &&& (a % 16 == 0 && b < 16 ==> a | b == a + b)
            &&& (b % 16 == 0 && a < 16 ==> a | b == a + b)
            &&& (a % 256 == 0 && b < 256 ==> a | b == a + b)
            &&& (b % 256 == 0 && a < 256 ==> a | b == a + b)
            &&& (a % 65536 == 0 && b < 65536 ==> a | b == a + b)
            &&& (b % 65536 == 0 && a < 65536 ==> a | b == a + b)
            &&& (a % 16777216 == 0 && b < 16777216 ==> a | b == a + b)
            &&& (b % 16777216 == 0 && a < 16777216 ==> a | b == a + b) }),
    { assert(a % 16 == 0 && b < 16 ==> a | b == a + b) by (bit_vector); assert(b % 16 == 0 && a < 16 ==> a | b == a + b) by (bit_vector); assert(a % 256 == 0 && b < 256 ==> a | b == a + b) by (bit_vector); assert(b % 256 == 0 && a < 256 ==> a | b == a + b) by (bit_vector); assert(a % 65536 == 0 && b < 65536 ==> a | b == a + b) by (bit_vector); assert(b % 65536 == 0 && a < 65536 ==> a | b == a + b) by (bit_vector); assert(a % 16777216 == 0 && b < 16777216 ==> a | b == a + b) by (bit_vector); assert(b % 16777216 == 0 && a < 16777216 ==> a | b == a + b) by (bit_vector); }
    pub broadcast proof fn lemma_usize_shr_1(x: usize)
        ensures #[trigger] (x >> 1) == x / 2,
    { assert(x >> 1 == x / 2) by (bit_vector); }
    pub broadcast proof fn lemma_usize_shr_2(x: usize)
        ensures #[trigger] (x >> 2) == x / 4,
    { assert(x >> 2 == x / 4) by (bit_vector); }
    pub broadcast proof fn lemma_usize_shr_3(x: usize)
        ensures #[trigger] (x >> 3) == x / 8,
    { assert(x >> 3 == x / 8) by (bit_vector); }
    pub broadcast proof fn lemma_usize_shr_4(x: usize)
        ensures #[trigger] (x >> 4) == x / 16,
    { assert(x >> 4 == x / 16) by (bit_vector); }
    pub broadcast proof fn lemma_usize_shr_7(x: usize)
        ensures #[trigger] (x >> 7) == x / 128,
    { assert(x >> 7 == x / 128) by (bit_vector); }
    pub broadcast proof fn lemma_usize_shr_8(x: usize)
        ensures #[trigger] (x >> 8) == x / 256,
    { assert(x >> 8 == x / 256) by (bit_vector); }
    pub broadcast proof fn lemma_usize_shr_12(x: usize)
        ensures #[trigger] (x >> 12) == x / 4096,
    { assert(x >> 12 == x / 4096) by (bit_vector); }
    pub broadcast proof fn lemma_usize_shr_16(x: usize)
        ensures #[trigger] (x >> 16) == x / 65536,
    { assert(x >> 16 == x / 65536) by (bit_vector); }
    pub broadcast proof fn lemma_usize_shr_24(x: usize)
        ensures #[trigger] (x >> 24) == x / 16777216,
    { assert(x >> 24 == x / 16777216) by (bit_vector); }
    pub broadcast proof fn lemma_usize_shl_1(x: usize)
        ensures x < 9223372036854775808 ==> #[trigger] (x << 1) == x * 2,
    { assert(x < 9223372036854775808 ==> x << 1 == x * 2) by (bit_vector); }
    pub broadcast proof fn lemma_usize_shl_4(x: usize)
        ensures x < 1152921504606846976 ==> #[trigger] (x << 4) == x * 16,
    { assert(x < 1152921504606846976 ==> x << 4 == x * 16) by (bit_vector); }
    pub broadcast proof fn lemma_usize_shl_8(x: usize)
        ensures x < 72057594037927936 ==> #[trigger] (x << 8) == x * 256,
    { assert(x < 72057594037927936 ==> x << 8 == x * 256) by (bit_vector); }
    pub broadcast proof fn lemma_usize_shl_16(x: usize)
        ensures x < 281474976710656 ==> #[trigger] (x << 16) == x * 65536,
    { assert(x < 281474976710656 ==> x << 16 == x * 65536) by (bit_vector); }
    pub broadcast proof fn lemma_usize_shl_24(x: usize)
        ensures x < 1099511627776 ==> #[trigger] (x << 24) == x * 16777216,
    { assert(x < 1099511627776 ==> x << 24 == x * 16777216) by (bit_vector); }
    pub broadcast proof fn lemma_usize_and_1(x: usize)
        ensures #[trigger] (x & 0x1) == x % 2,
    { assert(x & 0x1 == x % 2) by (bit_vector); }
    pub broadcast proof fn lemma_usize_and_2(x: usize)
        ensures #[trigger] (x & 0x3) == x % 4,
    { assert(x & 0x3 == x % 4) by (bit_vector); }
    pub broadcast proof fn lemma_usize_and_3(x: usize)
        ensures #[trigger] (x & 0x7) == x % 8,
    { assert(x & 0x7 == x % 8) by (bit_vector); }
    pub broadcast proof fn lemma_usize_and_4(x: usize)
        ensures #[trigger] (x & 0xf) == x % 16,
    { assert(x & 0xf == x % 16) by (bit_vector); }
    pub broadcast proof fn lemma_usize_and_7(x: usize)
        ensures #[trigger] (x & 0x7f) == x % 128,
    { assert(x & 0x7f == x % 128) by (bit_vector); }
    pub broadcast proof fn lemma_usize_and_8(x: usize)
        ensures #[trigger] (x & 0xff) == x % 256,
    { assert(x & 0xff == x % 256) by (bit_vector); }
    pub broadcast proof fn lemma_usize_and_16(x: usize)
        ensures #[trigger] (x & 0xffff) == x % 65536,
    { assert(x & 0xffff == x % 65536) by (bit_vector); }
    pub broadcast proof fn lemma_usize_or(a: usize, b: usize)
        ensures ({ &&& #[trigger] (a | b) == a | b
            &&& (a % 16 == 0 && b < 16 ==> a | b == a + b)
            &&& (b % 16 == 0 && a < 16 ==> a | b == a + b)
            &&& (a % 256 == 0 && b < 256 ==> a | b == a + b)
            &&& (b % 256 == 0 && a < 256 ==> a | b == a + b)
            &&& (a % 65536 == 0 && b < 65536 ==> a | b == a + b)
            &&& (b % 65536 == 0 && a < 65536 ==> a | b == a + b)
            &&& (a % 16777216 == 0 && b < 16777216 ==> a | b == a + b)
            &&& (b % 16777216 == 0 && a < 16777216 ==> a | b == a + b) }),
    { assert(a % 16 == 0 && b < 16 ==> a | b == a + b) by (bit_vector); assert(b % 16 == 0 && a < 16 ==> a | b == a + b) by (bit_vector); assert(a % 256 == 0 && b < 256 ==> a | b == a + b) by (bit_vector); assert(b % 256 == 0 && a < 256 ==> a | b == a + b) by (bit_vector); assert(a % 65536 == 0 && b < 65536 ==> a | b == a + b) by (bit_vector); assert(b % 65536 == 0 && a < 65536 ==> a | b == a + b) by (bit_vector); assert(a % 16777216 == 0 && b < 16777216 ==> a | b == a + b) by (bit_vector); assert(b % 16777216 == 0 && a < 16777216 ==> a | b == a + b) by (bit_vector); }
    pub broadcast proof fn lemma_u8_high(x: u8)
        ensures ({ &&& (#[trigger] (x & 0x80) == 0 <==> x < 128) &&& (x & 0x80 == 128 <==> x >= 128) &&& (x & 0x80 == 0 || x & 0x80 == 128) }),
    { assert((x & 0x80 == 0 <==> x < 128) && (x & 0x80 == 128 <==> x >= 128) && (x & 0x80 == 0 || x & 0x80 == 128)) by (bit_vector); }
    pub broadcast proof fn lemma_u8_high_nibble(x: u8)
        ensures #[trigger] (x & 0xf0) == x - x % 16,
    { assert(x & 0xf0 == x - x % 16) by (bit_vector); }
    pub broadcast proof fn lemma_i32_shl_4(x: i32)
        ensures -134217728 <= x < 134217728 ==> #[trigger] (x << 4) == x * 16,
    { assert(-134217728 <= x < 134217728 ==> x << 4 == x * 16) by (bit_vector); }
    pub broadcast proof fn lemma_i32_shl_8(x: i32)
        ensures -8388608 <= x < 8388608 ==> #[trigger] (x << 8) == x * 256,
    { assert(-8388608 <= x < 8388608 ==> x << 8 == x * 256) by (bit_vector); }
    pub broadcast proof fn lemma_i32_or(a: i32, b: i32)
        ensures ({ &&& #[trigger] (a | b) == a | b &&& (a % 256 == 0 && 0 <= b < 256 ==> a | b == a + b) }),
    { assert(a % 256 == 0 && 0 <= b < 256 ==> a | b == a + b) by (bit_vector); }
    pub broadcast proof fn lemma_i32_and_8(x: i32)
        ensures 0 <= x ==> #[trigger] (x & 0xff) == x % 256,
    { assert(0 <= x ==> x & 0xff == x % 256) by (bit_vector); }
    pub broadcast group group_bits {
        lemma_u8_shr_1, lemma_u8_shr_2, lemma_u8_shr_3, lemma_u8_shr_4, lemma_u8_shr_7, lemma_u8_and_1, lemma_u8_and_2, lemma_u8_and_3, lemma_u8_and_4, lemma_u8_and_7, lemma_u8_and_8, lemma_u8_or, lemma_u16_shr_1, lemma_u16_shr_2, lemma_u16_shr_3, lemma_u16_shr_4, lemma_u16_shr_7, lemma_u16_shr_8, lemma_u16_shr_12, lemma_u16_shl_1, lemma_u16_shl_4, lemma_u16_shl_8, lemma_u16_and_1, lemma_u16_and_2, lemma_u16_and_3, lemma_u16_and_4, lemma_u16_and_7, lemma_u16_and_8, lemma_u16_or, lemma_u32_shr_1, lemma_u32_shr_2, lemma_u32_shr_3, lemma_u32_shr_4, lemma_u32_shr_7, lemma_u32_shr_8, lemma_u32_shr_12, lemma_u32_shr_16, lemma_u32_shr_24, lemma_u32_shl_1, lemma_u32_shl_4, lemma_u32_shl_8, lemma_u32_shl_16, lemma_u32_shl_24, lemma_u32_and_1, lemma_u32_and_2, lemma_u32_and_3, lemma_u32_and_4, lemma_u32_and_7, lemma_u32_and_8, lemma_u32_and_16, lemma_u32_or, lemma_u64_shr_1, lemma_u64_shr_2, lemma_u64_shr_3, lemma_u64_shr_4, lemma_u64_shr_7, lemma_u64_shr_8, lemma_u64_shr_12, lemma_u64_shr_16, lemma_u64_shr_24, lemma_u64_shl_1, lemma_u64_shl_4, lemma_u64_shl_8, lemma_u64_shl_16, lemma_u64_shl_24, lemma_u64_and_1, lemma_u64_and_2, lemma_u64_and_3, lemma_u64_and_4, lemma_u64_and_7, lemma_u64_and_8, lemma_u64_and_16, lemma_u64_or, lemma_usize_shr_1, lemma_usize_shr_2, lemma_usize_shr_3, lemma_usize_shr_4, lemma_usize_shr_7, lemma_usize_shr_8, lemma_usize_shr_12, lemma_usize_shr_16, lemma_usize_shr_24, lemma_usize_shl_1, lemma_usize_shl_4, lemma_usize_shl_8, lemma_usize_shl_16, lemma_usize_shl_24, lemma_usize_and_1, lemma_usize_and_2, lemma_usize_and_3, lemma_usize_and_4, lemma_usize_and_7, lemma_usize_and_8, lemma_usize_and_16, lemma_usize_or, lemma_u8_high, lemma_u8_high_nibble, lemma_i32_shl_4, lemma_i32_shl_8, lemma_i32_or, lemma_i32_and_8,
    }

    // ---- integers
    #[verifier::external_body]
    pub fn u8_from_be_bytes(bytes: [u8; 1]) -> (r: u8)
        ensures r as int == bytes[0] as int
    {
        u8::from_be_bytes(bytes)
    }
    #[verifier::external_body]
    pub fn i8_from_be_bytes(bytes: [u8; 1]) -> (r: i8)
        ensures r as int == signed(bytes[0] as int, 0x100)
    {
        i8::from_be_bytes(bytes)
    }
    #[verifier::external_body]
    pub fn u16_from_be_bytes(bytes: [u8; 2]) -> (r: u16)
        ensures r as int == bytes[0] as int * 256 + bytes[1] as int
    {
        u16::from_be_bytes(bytes)
    }
    #[verifier::external_body]
    pub fn i16_from_be_bytes(bytes: [u8; 2]) -> (r: i16)
        ensures r as int == signed(bytes[0] as int * 256 + bytes[1] as int, 0x1_0000)
    {
        i16::from_be_bytes(bytes)
    }
    #[verifier::external_body]
    pub fn u32_from_be_bytes(bytes: [u8; 4]) -> (r: u32)
        ensures r as int == ((bytes[0] as int * 256 + bytes[1] as int) * 256 + bytes[2] as int) * 256 + bytes[3] as int
    {
        u32::from_be_bytes(bytes)
    }
    #[verifier::external_body]
    pub fn i32_from_be_bytes(bytes: [u8; 4]) -> (r: i32)
        ensures r as int == signed(((bytes[0] as int * 256 + bytes[1] as int) * 256 + bytes[2] as int) * 256 + bytes[3] as int, 0x1_0000_0000)
    {
        i32::from_be_bytes(bytes)
    }

    // ---- ranges
    // The number of pairs of neighbours, and the end of the range 0..=n.
    pub fn vpairs(length: usize) -> (r: usize)
        ensures r == if length > 0 { length - 1 } else { 0 }
    {
        if length > 0 { length - 1 } else { 0 }
    }
    pub trait VEnd: Sized {
        spec fn end_spec(self) -> int;
        fn vend(self) -> (r: usize)
            requires self.end_spec() <= usize::MAX,
            ensures r == self.end_spec();
    }
    impl VEnd for u8 {
        open spec fn end_spec(self) -> int { self + 1 }
        fn vend(self) -> (r: usize) { self as usize + 1 }
    }
    impl VEnd for u16 {
        open spec fn end_spec(self) -> int { self + 1 }
        fn vend(self) -> (r: usize) { self as usize + 1 }
    }
    impl VEnd for usize {
        open spec fn end_spec(self) -> int { self + 1 }
        fn vend(self) -> (r: usize) { assert(self.end_spec() == self + 1); self + 1 }
    }

    // ---- options
    pub fn vcopied<V: Copy>(value: Option<&V>) -> (r: Option<V>)
        ensures r == match value { Some(value) => Some(*value), None => None::<V> }
    {
        match value { Some(value) => Some(*value), None => None }
    }

    // ---- vectors
    pub fn vfirst<V>(values: &[V]) -> (r: Option<&V>)
        ensures r == if values@.len() > 0 { Some(&values@[0]) } else { None::<&V> }
    {
        if values.len() > 0 { Some(&values[0]) } else { None }
    }
    pub fn vswap<V>(values: &mut Vec<V>, a: usize, b: usize)
        requires
            a < old(values)@.len() && b < old(values)@.len(), //@panic
        ensures
            final(values)@ == old(values)@.update(a as int, old(values)@[b as int]).update(b as int, old(values)@[a as int]),
    {
        if a == b {
            assert(values@ =~= old(values)@.update(a as int, old(values)@[b as int]).update(b as int, old(values)@[a as int]));
            return;
        }
        let (low, high) = if a < b { (a, b) } else { (b, a) };
        let one = values.remove(high);
        let two = values.remove(low);
        values.insert(low, one);
        values.insert(high, two);
        assert(values@ =~= old(values)@.update(a as int, old(values)@[b as int]).update(b as int, old(values)@[a as int]));
    }
    pub fn vlast<V>(values: &[V]) -> (r: Option<&V>)
        ensures r == if values@.len() > 0 { Some(&values@[values@.len() - 1]) } else { None::<&V> }
    {
        if values.len() > 0 { Some(&values[values.len() - 1]) } else { None }
    }
    // vector.drain(start..).collect(), with the panic of drain as a precondition
    pub fn vec_drain_from<V>(vector: &mut Vec<V>, start: usize) -> (r: Vec<V>)
        requires
            start <= old(vector)@.len(), //@panic
        ensures
            r@ == old(vector)@.subrange(start as int, old(vector)@.len() as int),
            final(vector)@ == old(vector)@.subrange(0, start as int),
    {
        vector.split_off(start)
    }

    // ---- strings
    // str::parse::<f32>: the number that a text stands for, if it does.
    pub uninterp spec fn f32_parse(text: Seq<char>) -> Option<f32>;
    #[verifier::external_body]
    pub fn parse_f32(text: &String) -> (r: core::result::Result<f32, ()>)
        ensures match f32_parse(text@) { Some(value) => r == core::result::Result::<f32, ()>::Ok(value), None => r is Err }
    {
        text.parse::<f32>().map_err(|_| ())
    }

    // String::from_utf8 and String::from_utf8_lossy
    pub uninterp spec fn utf8_valid(bytes: Seq<u8>) -> bool;
    pub uninterp spec fn utf8_lossy(bytes: Seq<u8>) -> Seq<char>;
    pub struct Utf8Error { pub bytes: Vec<u8> }
    impl Utf8Error {
        pub fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self.bytes@ { self.bytes }
        pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes@ { self.bytes.as_slice() }
    }
    #[verifier::external_body]
    pub fn string_from_utf8(bytes: Vec<u8>) -> (r: core::result::Result<String, Utf8Error>)
        ensures match r {
            Ok(text) => utf8_valid(bytes@) && text@ == utf8_lossy(bytes@),
            Err(error) => !utf8_valid(bytes@) && error.bytes@ == bytes@,
        }
    {
        String::from_utf8(bytes).map_err(|e| Utf8Error { bytes: e.into_bytes() })
    }
    #[verifier::external_body]
    pub fn string_from_utf8_lossy(bytes: &[u8]) -> (r: String)
        ensures r@ == utf8_lossy(bytes@)
    {
        String::from_utf8_lossy(bytes).into_owned()
    }
    pub fn str_to_string(text: &str) -> (r: String)
        ensures r@ == text@
    {
        text.to_string()
    }
    pub fn string_empty() -> (r: String)
        ensures r@ == Seq::<char>::empty()
    {
        String::new()
    }
}

} // verus!
