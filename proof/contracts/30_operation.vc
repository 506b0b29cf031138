@mod compact1::operation
    //@broadcast
    broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::prelude::group_abs};
    pub broadcast axiom fn axiom_operator_key()
        ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Operator>();
    pub proof fn key_model()
        ensures vstd::std_specs::hash::obeys_key_model::<Operator>()
    { broadcast use axiom_operator_key; }
    pub open spec fn dict_of(m: Map<Operator, Vec<Number>>) -> crate::spec1::Dict { m.map_values(|v: Vec<Number>| v@) }
@implitems compact1::operation::<Operations as value::Read>
    type Abs = crate::spec1::Dict;
    open spec fn abs(&self) -> crate::spec1::Dict { dict_of(self.0@) }
    open spec fn dec(data: Seq<u8>, pos: int) -> Dec<crate::spec1::Dict> { crate::spec1::dict_dec(data, pos, Map::empty()) }
@implitems compact1::operation::<Operation as value::Read>
    type Abs = (Operator, Seq<Number>);
    open spec fn abs(&self) -> (Operator, Seq<Number>) { (self.0, self.1@) }
    open spec fn dec(data: Seq<u8>, pos: int) -> Dec<(Operator, Seq<Number>)> { crate::spec1::operation_dec(data, pos, seq![]) }
@fn compact1::operation::<Operations as default::Default>::default
@fn compact1::operation::Operations::get
@ret r
    ensures
        match crate::spec1::dict_get(crate::value::Read::abs(self), operator) { //@kind functional
            Some(operands) => r is Some && r->Some_0@ == operands,
            None => r is None,
        },
@entry
    broadcast use axiom_operator_key;
@fn compact1::operation::Operations::get_single
@ret r
    ensures r == crate::spec1::dict_single(crate::value::Read::abs(self), operator), //@kind functional
@fn compact1::operation::Operations::get_double
@ret r
    ensures r == crate::spec1::dict_double(crate::value::Read::abs(self), operator), //@kind functional
@fn compact1::operation::<Operations as value::Read>::read
@entry
    broadcast use axiom_operator_key;
    let ghost vx_data = tape.data();
    let ghost vx_start = tape.pos();
    proof {
        crate::spec1::lemma_dict_decided(vx_data, vx_start, Map::empty());
        assert(dict_of(Map::empty()) =~= Map::empty());
    }
@loop 0
    invariant
        vx_data == old(tape).data(),
        vx_start == old(tape).pos(),
        tape.data() == vx_data,
        tape.fault() == old(tape).fault(),
        crate::spec1::dict_dec(vx_data, vx_start, Map::empty()) == crate::spec1::dict_dec(vx_data, tape.pos(), dict_of(operations@)),
        crate::spec1::dict_dec(vx_data, vx_start, Map::empty()) is Somewhere || crate::spec1::dict_dec(vx_data, vx_start, Map::empty()) is Bad,
    decreases (if tape.pos() <= vx_data.len() { vx_data.len() - tape.pos() } else { 0 })
@loop_entry 0
    let ghost vx_before = operations@;
    proof { key_model(); crate::spec1::lemma_operation_advances(vx_data, tape.pos(), seq![]); }
@loop_exit 0
    proof { assert(forall|a: Operator, b: Vec<Number>| #![trigger vx_before.insert(a, b)] dict_of(vx_before.insert(a, b)) =~= dict_of(vx_before).insert(a, b@)); }
@fn compact1::operation::<Operation as value::Read>::read
@entry
    let ghost vx_data = tape.data();
    let ghost vx_start = tape.pos();
@loop 0
    invariant
        vx_data == old(tape).data(),
        vx_start == old(tape).pos(),
        tape.data() == vx_data,
        tape.fault() == old(tape).fault(),
        crate::spec1::operation_dec(vx_data, vx_start, seq![]) == crate::spec1::operation_dec(vx_data, tape.pos(), operands@),
    decreases (if tape.pos() <= vx_data.len() { vx_data.len() - tape.pos() } else { 0 })
@loop_entry 0
    let ghost vx_before = operands@;
    proof { crate::spec1::lemma_number_advances(vx_data, tape.pos()); }
@fn compact1::operation::Operator::from
@ret r
    ensures match r { Ok(v) => crate::spec_dict::dict_operator(code as int) == Some(v), Err(e) => crate::spec_dict::dict_operator(code as int) is None && e.kind != crate::io::ErrorKind::UnexpectedEof }, //@kind functional
@fn compact1::operation::Operator::default
@ret r
    ensures
        match crate::spec_dict::dict_default(*self) { //@kind functional
            Some(operands) => r is Some && r->Some_0@ =~= operands,
            None => r is None,
        },
@mod (deref)Operations
impl crate::compact1::operation::Operations {
    //@fn compact1::operation::Operations::(deref)contains_key
    pub fn contains_key(&self, operator: &crate::compact1::operation::Operator) -> (r: bool)
        ensures r == crate::value::Read::abs(self).contains_key(*operator)
    {
        broadcast use vstd::std_specs::hash::group_hash_axioms;
        broadcast use crate::compact1::operation::axiom_operator_key;
        self.0.contains_key(operator)
    }
}
