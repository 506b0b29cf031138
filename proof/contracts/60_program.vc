//# ---------------------------------------------------------------- operands and operators
@fn type2::number::read
@ret r
    ensures
        final(tape).data() == old(tape).data(), //@kind functional
        old(tape).fault() <= final(tape).fault(), //@kind fault
        r is Ok ==> final(tape).fault() == old(tape).fault(), //@kind fault
        match r { Ok(v) => met(crate::spec2::operand_dec(old(tape).data(), old(tape).pos()), v, final(tape).pos()), Err(e) => failed(crate::spec2::operand_dec(old(tape).data(), old(tape).pos()), e, old(tape).fault(), final(tape).fault()) }, //@kind functional
@entry
    broadcast use group_f32;
    proof { crate::spec1::lemma_casts(); }
@fn type2::operation::Operator::from
@ret r
    ensures match r { Ok(v) => crate::spec2::operator_of(code as int) == Some(v), Err(e) => crate::spec2::operator_of(code as int) is None && e.kind != crate::io::ErrorKind::UnexpectedEof }, //@kind functional
@fn type2::program::bias
@ret r
    ensures r == crate::spec2::bias_of(count as int), //@kind functional
@fn type2::program::Routine::new
@ret r
    ensures
        r.caller is None, crate::spec2::frame(r) == (crate::spec2::Frame { code: code@, pos: 0, depth: 0 }), r.size == code@.len(), //@kind functional
@fn type2::program::Routine::done
@ret r
    ensures
        final(self).size == old(self).size, final(self).depth == old(self).depth, final(self).caller == old(self).caller, //@kind functional
        crate::spec2::frame(*final(self)) == crate::spec2::frame(*old(self)), //@kind functional
        r is Ok, //@kind functional
        r->Ok_0 == (crate::tape::Read::pos(&old(self).tape) == old(self).size), //@kind functional
@fn type2::program::Routine::take_operand
@ret r
    ensures
        final(self).size == old(self).size, final(self).depth == old(self).depth, final(self).caller == old(self).caller, //@kind functional
        crate::tape::Read::data(&final(self).tape) == crate::tape::Read::data(&old(self).tape), //@kind functional
        match r { Ok(v) => met(crate::spec2::operand_dec(crate::tape::Read::data(&old(self).tape), crate::tape::Read::pos(&old(self).tape)), v, crate::tape::Read::pos(&final(self).tape)), Err(e) => failed(crate::spec2::operand_dec(crate::tape::Read::data(&old(self).tape), crate::tape::Read::pos(&old(self).tape)), e, 0, 0) }, //@kind functional

@fn type2::program::Program::new
@ret r
    ensures
        crate::spec2::sound(r), //@kind functional
        r.global == global, r.local == local, //@kind functional
        crate::spec2::machine(r) == crate::spec2::started(code@), //@kind functional
@tail
    proof { assert(crate::spec2::frames(vx_r.routine) =~= crate::spec2::started(code@).frames); }
@fn type2::program::Program::width
@ret r
    ensures r == crate::spec2::machine(*self).width, //@kind functional

@fn type2::program::Program::step
@attr verifier::rlimit(120)
@attr verifier::spinoff_prover
@ret r
    requires
        crate::spec2::sound(*old(self)),
    ensures
        crate::spec2::sound(*final(self)), //@kind functional
        final(self).global == old(self).global, final(self).local == old(self).local, //@kind functional
        crate::spec2::stepped(r, crate::spec2::step(crate::spec2::machine(*old(self)), crate::spec2::codes(old(self).global@), crate::spec2::codes(old(self).local@)), crate::spec2::machine(*final(self))), //@kind functional
@entry
    broadcast use group_f32;
    let ghost vx_old = crate::spec2::machine(*self);
    let ghost vx_code = crate::spec2::frame(self.routine);
    let ghost vx_global = crate::spec2::codes(self.global@);
    let ghost vx_local = crate::spec2::codes(self.local@);
    let ghost vx_step = crate::spec2::step(vx_old, vx_global, vx_local);
    proof {
        crate::spec2::lemma_frames(self.routine);
        crate::spec2::lemma_step(vx_old, vx_global, vx_local);
    }
@loop 0
    invariant
        vx_step == crate::spec2::step(vx_old, crate::spec2::codes(old(self).global@), crate::spec2::codes(old(self).local@)),
        !(crate::spec2::operands_dec(vx_code.code, vx_code.pos, vx_old.stack) is Good) ==> vx_step == crate::spec2::Outcome::Fail,
        crate::spec2::sound(*old(self)),
        vx_old == crate::spec2::machine(*old(self)),
        vx_code == crate::spec2::frame(old(self).routine),
        self.global == old(self).global, self.local == old(self).local,
        self.routine.size == old(self).routine.size, self.routine.depth == old(self).routine.depth, self.routine.caller == old(self).routine.caller,
        self.stems == old(self).stems, self.width == old(self).width, self.cleared == old(self).cleared,
        crate::tape::Read::data(&self.routine.tape) == vx_code.code,
        crate::spec2::operands_dec(vx_code.code, vx_code.pos, vx_old.stack) == crate::spec2::operands_dec(vx_code.code, crate::tape::Read::pos(&self.routine.tape), self.stack@),
    ensures
        crate::spec2::operands_dec(vx_code.code, vx_code.pos, vx_old.stack) == Dec::<Seq<f32>>::Good(self.stack@, crate::tape::Read::pos(&self.routine.tape)),
        fits(vx_code.code, crate::tape::Read::pos(&self.routine.tape), 1),
        code == vx_code.code[crate::tape::Read::pos(&self.routine.tape)],
    decreases (if crate::tape::Read::pos(&self.routine.tape) <= vx_code.code.len() { vx_code.code.len() - crate::tape::Read::pos(&self.routine.tape) } else { 0 })
@loop_entry 0
    proof { crate::spec2::lemma_operand_advances(vx_code.code, crate::tape::Read::pos(&self.routine.tape)); }
@arm *
    let ghost vx_now = crate::spec2::machine(*self);
    proof {
        crate::spec2::lemma_frames(self.routine);
        assert(vx_now.frames =~= vx_old.frames.drop_last().push(crate::spec2::frame(self.routine)));
        assert(vx_step == crate::spec2::perform(vx_now, operator, vx_global, vx_local));
        crate::spec2::lemma_perform(vx_now, operator, vx_global, vx_local);
    }
@pre_loop RLineTo.0
    let ghost vx_min = min;
@loop RLineTo.0
    invariant
        min == crate::spec2::lesser(vx_min as int, if i > 1 { length - 2 * (i - 1) } else { usize::MAX as int }),
@pre_loop HLineTo.0, VLineTo.0
    let ghost vx_min = min;
@loop HLineTo.0, VLineTo.0
    invariant
        min == crate::spec2::lesser(vx_min as int, if i > 0 { left - 2 * (i - 1) } else { usize::MAX as int }),
@pre_loop HLineTo.1, VLineTo.1
    let ghost vx_min = min;
@loop HLineTo.1, VLineTo.1
    invariant
        min == crate::spec2::lesser(vx_min as int, if i > 1 { length - 2 * (i - 1) } else { usize::MAX as int }),
@pre_loop RRCurveTo.0
    let ghost vx_min = min;
@loop RRCurveTo.0
    invariant
        min == crate::spec2::lesser(vx_min as int, if i > 1 { length - 6 * (i - 1) } else { usize::MAX as int }),
@pre_loop HHCurveTo.0, VVCurveTo.0
    let ghost vx_min = min;
@loop HHCurveTo.0, VVCurveTo.0
    invariant
        min == crate::spec2::lesser(vx_min as int, if i > 1 { length - 4 * (i - 1) } else { usize::MAX as int }),
@pre_loop HHCurveTo.1, VVCurveTo.1
    let ghost vx_min = min;
@loop HHCurveTo.1, VVCurveTo.1
    invariant
        min == crate::spec2::lesser(vx_min as int, if i > 1 { length - 1 - 4 * (i - 1) } else { usize::MAX as int }),
@pre_loop HVCurveTo.0, VHCurveTo.0
    let ghost vx_min = min;
@loop HVCurveTo.0, VHCurveTo.0
    invariant
        min == crate::spec2::lesser(vx_min as int, if i > 0 { crate::spec2::maybe_one(left - 8 * (i - 1)) } else { usize::MAX as int }),
@pre_loop HVCurveTo.1, VHCurveTo.1
    let ghost vx_min = min;
@loop HVCurveTo.1, VHCurveTo.1
    invariant
        min == crate::spec2::lesser(vx_min as int, if i > 1 { crate::spec2::maybe_one(length - 8 * (i - 1)) } else { usize::MAX as int }),
@pre_loop RCurveLine.0
    let ghost vx_min = min;
@loop RCurveLine.0
    invariant
        min == crate::spec2::lesser(vx_min as int, if i > 1 { crate::spec2::fitted(length as int, 2, 6, length - 6 * (i - 1)) } else { usize::MAX as int }),
@pre_loop RLineCurve.0
    let ghost vx_min = min;
@loop RLineCurve.0
    invariant
        min == crate::spec2::lesser(vx_min as int, if i > 1 { crate::spec2::fitted(length as int, 6, 2, length - 2 * (i - 1)) } else { usize::MAX as int }),
@pre_loop HStem.0, VStem.0, HStemHM.0, VStemHM.0
    let ghost vx_min = min;
@loop HStem.0, VStem.0, HStemHM.0, VStemHM.0
    invariant
        min == crate::spec2::lesser(vx_min as int, if i > 0 { left - 2 * (i - 1) } else { usize::MAX as int }),
@loop EndChar.0
    invariant
        self.global == old(self).global, self.local == old(self).local, self.stack@ == vx_now.stack,
        self.stems == vx_now.stems, self.width == vx_now.width, self.cleared == vx_now.cleared,
        crate::spec2::routine_sound(self.routine),
        vx_step == crate::spec2::step(crate::spec2::machine(*old(self)), crate::spec2::codes(old(self).global@), crate::spec2::codes(old(self).local@)),
        vx_step == crate::spec2::perform_end(vx_now),
        crate::spec2::frames(self.routine).len() <= vx_now.frames.len(),
        crate::spec2::frames(self.routine) == vx_now.frames.take(crate::spec2::frames(self.routine).len() as int),
        forall|i: int| crate::spec2::frames(self.routine).len() <= i < vx_now.frames.len() ==> (#[trigger] vx_now.frames[i]).pos == vx_now.frames[i].code.len(),
    ensures
        self.routine.caller is None,
    decreases crate::spec2::frames(self.routine).len()
@pre_loop Greater.0
    let ghost vx_stack = self.stack@;
    proof { assert(vx_stack =~= vx_rest); }
    let ghost vx_routine = self.routine;
    proof { crate::spec2::lemma_rolled_not(vx_stack, span as int); }
@loop Greater.0
    invariant
        self.routine == vx_routine, self.global == old(self).global, self.local == old(self).local,
        self.stems == vx_now.stems, self.width == vx_now.width, self.cleared == vx_now.cleared,
        span > 0,
        position + span == vx_stack.len(),
        self.stack@ == crate::spec2::rolled(vx_stack, span as int, vx_n as int),
@loop_entry Greater.0
    proof {
        crate::spec2::lemma_rolled_once(vx_stack, span as int, vx_n as int);
        crate::spec2::lemma_rolled_len(vx_stack, span as int, vx_n as int);
    }
@pre_loop Less.0
    let ghost vx_stack = self.stack@;
    proof { assert(vx_stack =~= vx_rest); }
    let ghost vx_routine = self.routine;
    proof { crate::spec2::lemma_rolled_not(vx_stack, span as int); }
@loop Less.0
    invariant
        self.routine == vx_routine, self.global == old(self).global, self.local == old(self).local,
        self.stems == vx_now.stems, self.width == vx_now.width, self.cleared == vx_now.cleared,
        span > 0,
        position + span == vx_stack.len(),
        self.stack@ == crate::spec2::rolled(vx_stack, span as int, -vx_n),
@loop_entry Less.0
    proof {
        crate::spec2::lemma_rolled_once(vx_stack, span as int, -vx_n);
        crate::spec2::lemma_rolled_len(vx_stack, span as int, -vx_n);
    }
@split lines: RMoveTo HMoveTo VMoveTo RLineTo HLineTo VLineTo
@split curves: RRCurveTo HHCurveTo VVCurveTo
@split alternating: HVCurveTo VHCurveTo
@split mixed: RCurveLine RLineCurve
@split flexes: Flex Flex1 HFlex HFlex1
@split hints: HStem VStem HStemHM VStemHM HintMask CntrMask
@split end: EndChar
@split unary: Abs Neg Sqrt
@split stack: Drop Dup Index
@split sums: Add Sub
@split products: Div Mul
@split exchange: Exch
@split logic: And Or
@split comparison: Not Eq IfElse
@split roll: Roll
@split calls: CallSubr CallGSubr Return
@arm HStem, VStem, HStemHM, VStemHM, HintMask, CntrMask
    //@assume the number of hints fits in usize
    proof {
        assume(self.stems + self.stack@.len() + 7 <= usize::MAX);
        crate::spec2::lemma_shifts();
    }
@arm HintMask, CntrMask
    proof { lemma_dec_bytes(crate::tape::Read::data(&self.routine.tape), crate::tape::Read::pos(&self.routine.tape), ((self.stems + self.stack@.len() / 2 + 7) / 8) as nat); }
@arm_end Abs, Add, Sub, Div, Neg, Mul, Sqrt, Drop, Exch, Dup, And, Or, Not, Eq, IfElse, Index
    assert(crate::spec2::computed(operator, vx_now.stack) is Some);
    assert(self.stack@ =~= crate::spec2::computed(operator, vx_now.stack)->Some_0);
    assert(vx_step == crate::spec2::Outcome::Next(crate::spec2::machine(*self)));
@arm_end Roll
    assert(self.stack@ == vx_rest || self.stack@ == vx_computed) by {
        if vx_idle { assert(self.stack@ =~= vx_rest); }
    }
    assert(crate::spec2::computed(operator, vx_now.stack) == Some(vx_computed));
    assert(self.stack@ == vx_computed);
    assert(vx_step == crate::spec2::Outcome::Next(crate::spec2::machine(*self)));
@before_return HintMask, CntrMask
    proof {
        crate::spec2::lemma_frames(self.routine);
        assert(crate::spec2::frames(self.routine) =~= vx_now.frames.drop_last().push(crate::spec2::frame(self.routine)));
        assert(self.stack@ =~= seq![]);
        assert(vx_r->Ok_0->Some_0->Some_0.1@ =~= seq![]);
    }
@arm Roll
    let ghost vx_length = vx_now.stack.len() as int;
    let ghost vx_rest = vx_now.stack.take(vx_length - 2);
    let ghost vx_span = i32_of(vx_now.stack[vx_length - 2]) as int;
    let ghost vx_shift = i32_of(vx_now.stack[vx_length - 1]) as int;
    let ghost vx_computed = crate::spec2::rolled(vx_rest, vx_span, vx_shift);
    let ghost vx_idle = vx_span == 0 || vstd::arithmetic::div_mod::rust_rem(vx_shift, vx_span) == 0;
    proof { crate::spec2::lemma_roll(vx_now.stack); }
@loop_entry EndChar.0
    let ghost vx_length = crate::spec2::frames(self.routine).len() as int;
    proof {
        crate::spec2::lemma_frames(self.routine);
        assert(vx_now.frames[vx_length - 1] == crate::spec2::frame(self.routine));
    }
@loop_exit EndChar.0
    proof {
        crate::spec2::lemma_frames(self.routine);
        assert(crate::spec2::frames(self.routine) =~= vx_now.frames.take(vx_length - 1));
    }
@post_loop EndChar.0
    proof {
        crate::spec2::lemma_frames(self.routine);
        assert(crate::spec2::frames(self.routine).len() == 1);
        assert(vx_now.frames[0] == crate::spec2::frame(self.routine));
        assert(crate::spec2::nothing_left(vx_now.frames));
    }
@before_return EndChar
    proof {
        assert(crate::spec2::frames(self.routine) =~= seq![crate::spec2::frame(self.routine)]);
    }
@fn type2::program::Program::next
@ret r
    requires
        crate::spec2::sound(*old(self)),
    ensures
        crate::spec2::sound(*final(self)), //@kind functional
        final(self).global == old(self).global, final(self).local == old(self).local, //@kind functional
        exists|count: nat| (#[trigger] crate::spec2::after(crate::spec2::machine(*old(self)), crate::spec2::codes(old(self).global@), crate::spec2::codes(old(self).local@), count)) is Some //@kind functional
            && crate::spec2::executed(r, crate::spec2::step(crate::spec2::after(crate::spec2::machine(*old(self)), crate::spec2::codes(old(self).global@), crate::spec2::codes(old(self).local@), count)->Some_0, crate::spec2::codes(old(self).global@), crate::spec2::codes(old(self).local@)), crate::spec2::machine(*final(self))),
@entry
    let ghost vx_m = crate::spec2::machine(*self);
    let ghost vx_global = crate::spec2::codes(self.global@);
    let ghost vx_local = crate::spec2::codes(self.local@);
    let ghost vx_base = crate::spec2::longest(vx_global) + crate::spec2::longest(vx_local) + 1;
    let ghost mut vx_count: nat = 0;
    proof {
        crate::spec2::lemma_longest(vx_global);
        crate::spec2::lemma_longest(vx_local);
    }
@loop 0
    invariant
        crate::spec2::sound(*self),
        vx_m == crate::spec2::machine(*old(self)),
        vx_global == crate::spec2::codes(old(self).global@),
        vx_local == crate::spec2::codes(old(self).local@),
        self.global == old(self).global, self.local == old(self).local,
        crate::spec2::above_all(vx_base, vx_global),
        crate::spec2::above_all(vx_base, vx_local),
        crate::spec2::after(vx_m, vx_global, vx_local, vx_count) == Some(crate::spec2::machine(*self)),
    decreases crate::spec2::weight(crate::spec2::machine(*self).frames, vx_base, crate::type2::program::MAXIMUM_DEPTH as int)
@loop_entry 0
    proof {
        crate::spec2::lemma_nested(self.routine);
        crate::spec2::lemma_weight(crate::spec2::machine(*self), vx_global, vx_local, vx_base, crate::type2::program::MAXIMUM_DEPTH as int);
        vx_count = vx_count + 1;
        assert(crate::spec2::after(vx_m, vx_global, vx_local, (vx_count - 1) as nat) == Some(crate::spec2::machine(*self)));
    }
