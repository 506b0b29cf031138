//# ---------------------------------------------------------------- the dereference of Routine to its tape
@mod (deref)Routine
impl<'l> crate::type2::program::Routine<'l> {
    //@fn type2::program::Routine::(deref)take
    pub fn take<V: crate::value::Read>(&mut self) -> (r: crate::Result<V>)
        ensures
            final(self).size == old(self).size, final(self).depth == old(self).depth, final(self).caller == old(self).caller,
            crate::tape::Read::data(&final(self).tape) == crate::tape::Read::data(&old(self).tape),
            match r { Ok(v) => met(V::dec(crate::tape::Read::data(&old(self).tape), crate::tape::Read::pos(&old(self).tape)), v.abs(), crate::tape::Read::pos(&final(self).tape)), Err(e) => failed(V::dec(crate::tape::Read::data(&old(self).tape), crate::tape::Read::pos(&old(self).tape)), e, 0, 0) },
    { self.tape.take::<V>() }
    //@fn type2::program::Routine::(deref)peek
    pub fn peek<V: crate::value::Read>(&mut self) -> (r: crate::Result<V>)
        ensures
            final(self).size == old(self).size, final(self).depth == old(self).depth, final(self).caller == old(self).caller,
            crate::tape::Read::data(&final(self).tape) == crate::tape::Read::data(&old(self).tape),
            crate::tape::Read::pos(&final(self).tape) == crate::tape::Read::pos(&old(self).tape),
            match r { Ok(v) => met_value(V::dec(crate::tape::Read::data(&old(self).tape), crate::tape::Read::pos(&old(self).tape)), v.abs()), Err(e) => failed(V::dec(crate::tape::Read::data(&old(self).tape), crate::tape::Read::pos(&old(self).tape)), e, 0, 0) },
    { self.tape.peek::<V>() }
    //@fn type2::program::Routine::(deref)take_given
    pub fn take_given<'a, V: crate::walue::Read<'a>>(&mut self, parameter: V::Parameter) -> (r: crate::Result<V>)
        requires V::wvalid(parameter),
        ensures
            final(self).size == old(self).size, final(self).depth == old(self).depth, final(self).caller == old(self).caller,
            crate::tape::Read::data(&final(self).tape) == crate::tape::Read::data(&old(self).tape),
            match r { Ok(v) => met(V::wdec(crate::tape::Read::data(&old(self).tape), crate::tape::Read::pos(&old(self).tape), parameter), v.wabs(), crate::tape::Read::pos(&final(self).tape)), Err(e) => failed(V::wdec(crate::tape::Read::data(&old(self).tape), crate::tape::Read::pos(&old(self).tape), parameter), e, 0, 0) },
    { self.tape.take_given::<V>(parameter) }
    //@fn type2::program::Routine::(deref)jump
    pub fn jump(&mut self, position: u64) -> (r: crate::Result<u64>)
        ensures
            final(self).size == old(self).size, final(self).depth == old(self).depth, final(self).caller == old(self).caller,
            crate::tape::Read::data(&final(self).tape) == crate::tape::Read::data(&old(self).tape),
            r is Ok, crate::tape::Read::pos(&final(self).tape) == position,
    { crate::tape::Read::jump(&mut self.tape, position) }
}
