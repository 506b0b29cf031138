// Type 2 charstrings (TN5177): operands, operators and the machine that executes them.
verus! {

pub mod spec2 {
    use vstd::prelude::*;
    use crate::prelude::*;
    use crate::spec1::*;
    use crate::type2::operation::Operator;
    use crate::type2::program::{Program, Routine};

    // ---- operands (section 3.2)

    pub open spec fn starts_operand(b: int) -> bool { b == 28 || b >= 32 }

    pub open spec fn operand_dec(data: Seq<u8>, pos: int) -> Dec<f32> {
        if !fits(data, pos, 1) {
            Dec::Eof
        } else {
            let b0 = data[pos] as int;
            if 32 <= b0 <= 246 {
                Dec::Good(f32_of((b0 - 139) as i32), pos + 1)
            } else if 247 <= b0 <= 254 {
                if !fits(data, pos, 2) {
                    Dec::Eof
                } else if b0 <= 250 {
                    Dec::Good(f32_of(((b0 - 247) * 256 + data[pos + 1] as int + 108) as i32), pos + 2)
                } else {
                    Dec::Good(f32_of((-(b0 - 251) * 256 - data[pos + 1] as int - 108) as i32), pos + 2)
                }
            } else if b0 == 28 {
                if !fits(data, pos, 3) { Dec::Eof } else {
                    Dec::Good(f32_of(signed(be16(data, pos + 1), 0x1_0000) as i32), pos + 3)
                }
            } else if b0 == 255 {
                if !fits(data, pos, 5) { Dec::Eof } else {
                    Dec::Good(f32_fixed(signed(be32(data, pos + 1), 0x1_0000_0000) as i32), pos + 5)
                }
            } else {
                Dec::Bad
            }
        }
    }

    // All operands up to an operator.
    pub open spec fn operands_dec(data: Seq<u8>, pos: int, stack: Seq<f32>) -> Dec<Seq<f32>>
        decreases data.len() - pos
    {
        if !fits(data, pos, 1) {
            Dec::Eof
        } else if starts_operand(data[pos] as int) {
            match operand_dec(data, pos) {
                Dec::Good(value, p) => if pos < p <= data.len() { operands_dec(data, p, stack.push(value)) } else { Dec::Open },
                Dec::Eof => Dec::Eof,
                _ => Dec::Bad,
            }
        } else {
            Dec::Good(stack, pos)
        }
    }

    // ---- operators (appendix A)

    pub open spec fn escape(second: int) -> int { 12 * 256 + second }

    pub open spec fn operator_of(code: int) -> Option<Operator> {
        if code == 1 { Some(Operator::HStem) }
        else if code == 3 { Some(Operator::VStem) }
        else if code == 4 { Some(Operator::VMoveTo) }
        else if code == 5 { Some(Operator::RLineTo) }
        else if code == 6 { Some(Operator::HLineTo) }
        else if code == 7 { Some(Operator::VLineTo) }
        else if code == 8 { Some(Operator::RRCurveTo) }
        else if code == 10 { Some(Operator::CallSubr) }
        else if code == 11 { Some(Operator::Return) }
        else if code == 14 { Some(Operator::EndChar) }
        else if code == 18 { Some(Operator::HStemHM) }
        else if code == 19 { Some(Operator::HintMask) }
        else if code == 20 { Some(Operator::CntrMask) }
        else if code == 21 { Some(Operator::RMoveTo) }
        else if code == 22 { Some(Operator::HMoveTo) }
        else if code == 23 { Some(Operator::VStemHM) }
        else if code == 24 { Some(Operator::RCurveLine) }
        else if code == 25 { Some(Operator::RLineCurve) }
        else if code == 26 { Some(Operator::VVCurveTo) }
        else if code == 27 { Some(Operator::HHCurveTo) }
        else if code == 29 { Some(Operator::CallGSubr) }
        else if code == 30 { Some(Operator::VHCurveTo) }
        else if code == 31 { Some(Operator::HVCurveTo) }
        else if code == escape(3) { Some(Operator::And) }
        else if code == escape(4) { Some(Operator::Or) }
        else if code == escape(5) { Some(Operator::Not) }
        else if code == escape(9) { Some(Operator::Abs) }
        else if code == escape(10) { Some(Operator::Add) }
        else if code == escape(11) { Some(Operator::Sub) }
        else if code == escape(12) { Some(Operator::Div) }
        else if code == escape(14) { Some(Operator::Neg) }
        else if code == escape(15) { Some(Operator::Eq) }
        else if code == escape(18) { Some(Operator::Drop) }
        else if code == escape(20) { Some(Operator::Put) }
        else if code == escape(21) { Some(Operator::Get) }
        else if code == escape(22) { Some(Operator::IfElse) }
        else if code == escape(23) { Some(Operator::Random) }
        else if code == escape(24) { Some(Operator::Mul) }
        else if code == escape(26) { Some(Operator::Sqrt) }
        else if code == escape(27) { Some(Operator::Dup) }
        else if code == escape(28) { Some(Operator::Exch) }
        else if code == escape(29) { Some(Operator::Index) }
        else if code == escape(30) { Some(Operator::Roll) }
        else if code == escape(34) { Some(Operator::HFlex) }
        else if code == escape(35) { Some(Operator::Flex) }
        else if code == escape(36) { Some(Operator::HFlex1) }
        else if code == escape(37) { Some(Operator::Flex1) }
        else { None }
    }

    pub open spec fn operator_dec(data: Seq<u8>, pos: int) -> Dec<Operator> {
        if !fits(data, pos, 1) {
            Dec::Eof
        } else if data[pos] == 12 && !fits(data, pos, 2) {
            Dec::Eof
        } else {
            let code = if data[pos] == 12 { escape(data[pos + 1] as int) } else { data[pos] as int };
            match operator_of(code) {
                Some(operator) => Dec::Good(operator, pos + if data[pos] == 12 { 2int } else { 1 }),
                None => Dec::Bad,
            }
        }
    }

    // ---- the machine

    // A routine being executed: its code and how far it has been read.
    pub struct Frame { pub code: Seq<u8>, pub pos: int, pub depth: int }

    pub struct Machine {
        pub frames: Seq<Frame>,
        pub stack: Seq<f32>,
        pub stems: int,
        pub width: Option<f32>,
        pub cleared: bool,
    }

    pub enum Outcome {
        // An operation of the outline.
        Yield(Operator, Seq<f32>, Machine),
        // The end.
        Finish(Machine),
        // Nothing yet.
        Next(Machine),
        Fail,
    }

    pub open spec fn frame(routine: Routine<'_>) -> Frame {
        Frame { code: crate::tape::Read::data(&routine.tape), pos: crate::tape::Read::pos(&routine.tape), depth: routine.depth as int }
    }
    pub open spec fn chain(caller: Option<Box<Routine<'_>>>) -> Seq<Frame>
        decreases caller
    {
        match caller {
            Some(routine) => chain(routine.caller).push(frame(*routine)),
            None => seq![],
        }
    }
    // The redundant parts of routines agree with the rest, and a routine is deeper than its caller.
    pub open spec fn chain_sound(caller: Option<Box<Routine<'_>>>, below: int) -> bool
        decreases caller
    {
        match caller {
            Some(routine) => {
                &&& routine.size == crate::tape::Read::data(&routine.tape).len()
                &&& routine.depth < below
                &&& chain_sound(routine.caller, routine.depth as int)
            },
            None => true,
        }
    }
    pub open spec fn routine_sound(routine: Routine<'_>) -> bool {
        &&& routine.size == crate::tape::Read::data(&routine.tape).len()
        &&& routine.depth <= crate::type2::program::MAXIMUM_DEPTH
        &&& chain_sound(routine.caller, routine.depth as int)
    }
    pub open spec fn frames(routine: Routine<'_>) -> Seq<Frame> { chain(routine.caller).push(frame(routine)) }
    pub open spec fn machine(program: Program<'_>) -> Machine {
        Machine {
            frames: frames(program.routine),
            stack: program.stack@,
            stems: program.stems as int,
            width: program.width,
            cleared: program.cleared,
        }
    }
    pub open spec fn nested(frames: Seq<Frame>, limit: int) -> bool {
        &&& forall|i: int, j: int| 0 <= i < j < frames.len() ==> (#[trigger] frames[i]).depth < (#[trigger] frames[j]).depth
        &&& forall|i: int| 0 <= i < frames.len() ==> 0 <= (#[trigger] frames[i]).depth <= limit
    }
    pub open spec fn sound(program: Program<'_>) -> bool {
        routine_sound(program.routine)
    }
    pub open spec fn started(code: Seq<u8>) -> Machine {
        Machine { frames: seq![Frame { code, pos: 0, depth: 0 }], stack: seq![], stems: 0, width: None, cleared: false }
    }
    pub open spec fn codes(subroutines: Seq<Vec<u8>>) -> Seq<Seq<u8>> {
        subroutines.map_values(|code: Vec<u8>| code@)
    }

    pub open spec fn with_frame(m: Machine, f: Frame) -> Machine {
        Machine { frames: m.frames.drop_last().push(f), ..m }
    }
    pub open spec fn with_stack(m: Machine, stack: Seq<f32>) -> Machine {
        Machine { stack, ..m }
    }

    // ---- operations that clear the stack (sections 4.1 and 4.3)

    // Whether an operator may have so many operands.
    pub open spec fn legal(operator: Operator, k: int) -> bool {
        match operator {
            Operator::RMoveTo => k == 2,
            Operator::HMoveTo | Operator::VMoveTo => k == 1,
            Operator::RLineTo => k >= 2 && k % 2 == 0,
            Operator::HLineTo | Operator::VLineTo => k >= 1,
            Operator::RRCurveTo => k >= 6 && k % 6 == 0,
            Operator::HHCurveTo | Operator::VVCurveTo => k >= 4 && (k % 4 == 0 || k % 4 == 1),
            Operator::HVCurveTo | Operator::VHCurveTo => k >= 4 && (k % 8 == 0 || k % 8 == 1 || k % 8 == 4 || k % 8 == 5),
            Operator::RCurveLine => k >= 8 && k % 6 == 2,
            Operator::RLineCurve => k >= 8 && k % 2 == 0,
            Operator::Flex => k == 13,
            Operator::Flex1 => k == 11,
            Operator::HFlex => k == 7,
            Operator::HFlex1 => k == 9,
            Operator::HStem | Operator::VStem | Operator::HStemHM | Operator::VStemHM => k >= 2 && k % 2 == 0,
            _ => false,
        }
    }
    pub open spec fn is_stem(operator: Operator) -> bool {
        operator == Operator::HStem || operator == Operator::VStem || operator == Operator::HStemHM || operator == Operator::VStemHM
    }
    pub open spec fn is_mask(operator: Operator) -> bool {
        operator == Operator::HintMask || operator == Operator::CntrMask
    }
    // All other operators; those that are not supported fail.
    pub open spec fn is_computation(operator: Operator) -> bool {
        &&& !is_path(operator) && !is_stem(operator) && !is_mask(operator)
        &&& operator != Operator::EndChar && operator != Operator::CallSubr && operator != Operator::CallGSubr && operator != Operator::Return
    }
    pub open spec fn is_path(operator: Operator) -> bool {
        match operator {
            Operator::RMoveTo | Operator::HMoveTo | Operator::VMoveTo | Operator::RLineTo | Operator::HLineTo
            | Operator::VLineTo | Operator::RRCurveTo | Operator::HHCurveTo | Operator::VVCurveTo
            | Operator::HVCurveTo | Operator::VHCurveTo | Operator::RCurveLine | Operator::RLineCurve
            | Operator::Flex | Operator::Flex1 | Operator::HFlex | Operator::HFlex1 => true,
            _ => false,
        }
    }
    // How many of the operands on the stack belong to the operator: the most that are legal.
    pub open spec fn taken(operator: Operator, n: int) -> Option<int> {
        match operator {
            Operator::RMoveTo => if n >= 2 { Some(2int) } else { None },
            Operator::HMoveTo | Operator::VMoveTo => if n >= 1 { Some(1int) } else { None },
            Operator::RLineTo | Operator::HStem | Operator::VStem | Operator::HStemHM | Operator::VStemHM =>
                if n >= 2 { Some(n - n % 2) } else { None },
            Operator::HLineTo | Operator::VLineTo => if n >= 1 { Some(n) } else { None },
            Operator::RRCurveTo => if n >= 6 { Some(n - n % 6) } else { None },
            Operator::HHCurveTo | Operator::VVCurveTo | Operator::HVCurveTo | Operator::VHCurveTo =>
                if n >= 4 { Some(if n % 4 <= 1 { n } else { n - n % 4 + 1 }) } else { None },
            Operator::RCurveLine => if n >= 8 { Some(n - (n - 2) % 6) } else { None },
            Operator::RLineCurve => if n >= 8 { Some(n - n % 2) } else { None },
            Operator::Flex => if n >= 13 { Some(13int) } else { None },
            Operator::Flex1 => if n >= 11 { Some(11int) } else { None },
            Operator::HFlex => if n >= 7 { Some(7int) } else { None },
            Operator::HFlex1 => if n >= 9 { Some(9int) } else { None },
            _ => None,
        }
    }
    // The width is the operand below those of the first operator that clears the stack.
    pub open spec fn cleared_by(m: Machine, k: int) -> Machine {
        let n = m.stack.len();
        Machine {
            stack: seq![],
            width: if !m.cleared && n > k { Some(m.stack[n - k - 1]) } else { m.width },
            cleared: true,
            ..m
        }
    }
    pub open spec fn perform_clearing(m: Machine, operator: Operator) -> Outcome {
        let n = m.stack.len() as int;
        match taken(operator, n) {
            Some(k) => Outcome::Yield(operator, m.stack.subrange(n - k, n), cleared_by(m, k)),
            None => Outcome::Fail,
        }
    }
    pub open spec fn with_hints(m: Machine) -> Machine {
        Machine { stems: m.stems + m.stack.len() as int / 2, ..m }
    }
    // The operands of a hint mask are hints; its mask has one bit for each hint so far.
    pub open spec fn perform_mask(m: Machine, operator: Operator) -> Outcome {
        let n = m.stack.len() as int;
        let hinted = with_hints(m);
        let size = (hinted.stems + 7) / 8;
        let f = m.frames.last();
        if size > 0 && !fits(f.code, f.pos, size) {
            Outcome::Fail
        } else {
            Outcome::Yield(operator, seq![], with_frame(cleared_by(hinted, n - n % 2), Frame { pos: f.pos + size, ..f }))
        }
    }

    // ---- the end (section 4.3)

    // All routines but the outermost one have been read completely.
    pub open spec fn nothing_left(frames: Seq<Frame>) -> bool {
        forall|i: int| 1 <= i < frames.len() ==> (#[trigger] frames[i]).pos == frames[i].code.len()
    }
    pub open spec fn perform_end(m: Machine) -> Outcome {
        let n = m.stack.len() as int;
        if !nothing_left(m.frames) {
            Outcome::Fail
        } else {
            let first = m.frames[0];
            let k = if n >= 4 { 4int } else { 0 };
            Outcome::Finish(Machine {
                frames: seq![Frame { pos: first.code.len() as int, ..first }],
                stack: m.stack,
                ..cleared_by(m, k)
            })
        }
    }

    // ---- arithmetic, conditional and stack operators (section 4.4 and 4.6)

    pub open spec fn truth(value: f32) -> bool { !f32_eq(value, 0.0f32) }
    pub open spec fn truth_value(value: bool) -> f32 { if value { 1.0f32 } else { 0.0f32 } }

    // The stack that the operator leaves, if it can be executed.
    pub open spec fn computed(operator: Operator, s: Seq<f32>) -> Option<Seq<f32>> {
        let n = s.len() as int;
        let a = s[n - 1];
        let b = s[n - 2];
        match operator {
            Operator::Abs => if n >= 1 { Some(s.take(n - 1).push(f32_abs(a))) } else { None },
            Operator::Add => if n >= 2 { Some(s.take(n - 2).push(f32_add(b, a))) } else { None },
            Operator::Sub => if n >= 2 { Some(s.take(n - 2).push(f32_sub(b, a))) } else { None },
            Operator::Div => if n >= 2 { Some(s.take(n - 2).push(f32_div(b, a))) } else { None },
            Operator::Neg => if n >= 1 { Some(s.take(n - 1).push(f32_neg(a))) } else { None },
            Operator::Mul => if n >= 2 { Some(s.take(n - 2).push(f32_mul(b, a))) } else { None },
            Operator::Sqrt => if n >= 1 { Some(s.take(n - 1).push(f32_sqrt(a))) } else { None },
            Operator::Drop => if n >= 1 { Some(s.take(n - 1)) } else { None },
            Operator::Exch => if n >= 2 { Some(s.take(n - 2).push(a).push(b)) } else { None },
            Operator::Dup => if n >= 1 { Some(s.push(a)) } else { None },
            Operator::And => if n >= 2 { Some(s.take(n - 2).push(truth_value(truth(b) && truth(a)))) } else { None },
            Operator::Or => if n >= 2 { Some(s.take(n - 2).push(truth_value(truth(b) || truth(a)))) } else { None },
            Operator::Not => if n >= 1 { Some(s.take(n - 1).push(truth_value(!truth(a)))) } else { None },
            Operator::Eq => if n >= 2 { Some(s.take(n - 2).push(truth_value(f32_eq(b, a)))) } else { None },
            Operator::IfElse => if n >= 4 { Some(s.take(n - 4).push(if f32_le(b, a) { s[n - 4] } else { s[n - 3] })) } else { None },
            Operator::Index => if n >= 1 && f32_is_integer(a) {
                let i = if i32_of(a) >= 0 { i32_of(a) as int } else { 0 };
                if i < n - 1 { Some(s.take(n - 1).push(s[n - 2 - i])) } else { None }
            } else {
                None
            },
            Operator::Roll => if n >= 2 && f32_is_integer(a) && f32_is_integer(b) && 0 <= i32_of(b) <= n - 2 {
                Some(rolled(s.take(n - 2), i32_of(b) as int, i32_of(a) as int))
            } else {
                None
            },
            _ => None,
        }
    }
    // The topmost span of operands, shifted cyclically towards the top.
    #[verifier::opaque]
    pub open spec fn rolled(s: Seq<f32>, span: int, shift: int) -> Seq<f32> {
        let base = s.len() - span;
        Seq::new(s.len(), |i: int| if i < base { s[i] } else { s[base + (i - base - shift) % span] })
    }

    // ---- subroutines (section 4.7)

    pub open spec fn bias_of(count: int) -> int {
        if count < 1240 { 107 } else if count < 33900 { 1131 } else { 32768 }
    }
    pub open spec fn perform_call(m: Machine, subroutines: Seq<Seq<u8>>) -> Outcome {
        let n = m.stack.len() as int;
        if n < 1 || !f32_is_integer(m.stack[n - 1]) {
            Outcome::Fail
        } else {
            let i = i32_of(m.stack[n - 1]) as int + bias_of(subroutines.len() as int);
            if m.frames.last().depth >= crate::type2::program::MAXIMUM_DEPTH || !(0 <= i < subroutines.len()) {
                Outcome::Fail
            } else {
                Outcome::Next(Machine {
                    frames: m.frames.push(Frame { code: subroutines[i], pos: 0, depth: m.frames.last().depth + 1 }),
                    stack: m.stack.take(n - 1),
                    ..m
                })
            }
        }
    }
    pub open spec fn perform_return(m: Machine) -> Outcome {
        if m.frames.len() >= 2 {
            Outcome::Next(Machine { frames: m.frames.drop_last(), ..m })
        } else {
            Outcome::Fail
        }
    }

    #[verifier::opaque]
    pub open spec fn perform(m: Machine, operator: Operator, global: Seq<Seq<u8>>, local: Seq<Seq<u8>>) -> Outcome {
        if is_path(operator) {
            perform_clearing(m, operator)
        } else if is_stem(operator) {
            perform_clearing(with_hints(m), operator)
        } else if is_mask(operator) {
            perform_mask(m, operator)
        } else if operator == Operator::EndChar {
            perform_end(m)
        } else if operator == Operator::CallSubr {
            perform_call(m, local)
        } else if operator == Operator::CallGSubr {
            perform_call(m, global)
        } else if operator == Operator::Return {
            perform_return(m)
        } else {
            match computed(operator, m.stack) {
                Some(stack) => Outcome::Next(with_stack(m, stack)),
                None => Outcome::Fail,
            }
        }
    }

    // Operands up to an operator, and the operator.
    pub open spec fn fetched(m: Machine) -> Option<(Machine, Operator)> {
        let f = m.frames.last();
        match operands_dec(f.code, f.pos, m.stack) {
            Dec::Good(stack, p) => match operator_dec(f.code, p) {
                Dec::Good(operator, q) => Some((with_stack(with_frame(m, Frame { pos: q, ..f }), stack), operator)),
                _ => None,
            },
            _ => None,
        }
    }
    #[verifier::opaque]
    pub open spec fn step(m: Machine, global: Seq<Seq<u8>>, local: Seq<Seq<u8>>) -> Outcome {
        if m.frames.last().pos == m.frames.last().code.len() {
            Outcome::Finish(m)
        } else {
            match fetched(m) {
                Some((fetched, operator)) => perform(fetched, operator, global, local),
                None => Outcome::Fail,
            }
        }
    }
    // The machine after some steps.
    pub open spec fn after(m: Machine, global: Seq<Seq<u8>>, local: Seq<Seq<u8>>, count: nat) -> Option<Machine>
        decreases count
    {
        if count == 0 {
            Some(m)
        } else {
            match after(m, global, local, (count - 1) as nat) {
                Some(m) => match step(m, global, local) { Outcome::Next(m) => Some(m), _ => None },
                None => None,
            }
        }
    }

    // ---- what a result says

    pub open spec fn stepped(r: crate::Result<Option<Option<(Operator, Vec<f32>)>>>, outcome: Outcome, m: Machine) -> bool {
        match r {
            Ok(Some(Some((operator, operands)))) => outcome == Outcome::Yield(operator, operands@, m),
            Ok(Some(None)) => outcome == Outcome::Finish(m),
            Ok(None) => outcome == Outcome::Next(m),
            Err(_) => outcome == Outcome::Fail,
        }
    }
    pub open spec fn executed(r: crate::Result<Option<(Operator, Vec<f32>)>>, outcome: Outcome, m: Machine) -> bool {
        match r {
            Ok(Some((operator, operands))) => outcome == Outcome::Yield(operator, operands@, m),
            Ok(None) => outcome == Outcome::Finish(m),
            Err(_) => outcome == Outcome::Fail,
        }
    }

    // ---- termination: the weight of what remains

    pub open spec fn power(base: int, exponent: nat) -> int
        decreases exponent
    {
        if exponent == 0 { 1 } else { base * power(base, (exponent - 1) as nat) }
    }
    pub open spec fn remaining(f: Frame) -> int {
        if 0 <= f.pos <= f.code.len() { f.code.len() - f.pos } else { 0 }
    }
    pub open spec fn weight(frames: Seq<Frame>, base: int, depth: int) -> int
        decreases frames.len()
    {
        if frames.len() == 0 {
            0
        } else {
            weight(frames.drop_last(), base, depth) + remaining(frames.last()) * power(base, (depth - frames.last().depth) as nat)
        }
    }
    // More than the length of any code.
    pub open spec fn above_all(base: int, codes: Seq<Seq<u8>>) -> bool {
        base > 0 && forall|i: int| 0 <= i < codes.len() ==> (#[trigger] codes[i]).len() < base
    }
    pub open spec fn longest(codes: Seq<Seq<u8>>) -> int
        decreases codes.len()
    {
        if codes.len() == 0 { 0 } else {
            let rest = longest(codes.drop_last());
            if codes.last().len() > rest { codes.last().len() as int } else { rest }
        }
    }

    // ---- helpers of loop invariants

    pub open spec fn lesser(a: int, b: int) -> int { if b < a { b } else { a } }
    pub open spec fn maybe_one(left: int) -> int { if left >= 1 { left - 1 } else { left } }
    // What remains of left, or of the last one before it, after count more.
    pub open spec fn fitted(length: int, count: int, modulus: int, left: int) -> int {
        if length < modulus + count { usize::MAX as int } else if left >= count { left - count } else { (length - count) % modulus }
    }

    // ---- lemmas

    // The format lets subroutines be nested ten deep (TN5177, appendix B).
    pub proof fn lemma_limit()
        ensures crate::type2::program::MAXIMUM_DEPTH >= 10
    {
    }

    pub proof fn lemma_step(m: Machine, global: Seq<Seq<u8>>, local: Seq<Seq<u8>>)
        requires m.frames.len() > 0
        ensures
            m.frames.last().pos == m.frames.last().code.len() ==> step(m, global, local) == Outcome::Finish(m),
            m.frames.last().pos != m.frames.last().code.len() ==> match operands_dec(m.frames.last().code, m.frames.last().pos, m.stack) {
                Dec::Good(stack, p) => match operator_dec(m.frames.last().code, p) {
                    Dec::Good(operator, q) => step(m, global, local) == perform(with_stack(with_frame(m, Frame { pos: q, ..m.frames.last() }), stack), operator, global, local),
                    _ => step(m, global, local) == Outcome::Fail,
                },
                _ => step(m, global, local) == Outcome::Fail,
            },
    {
        reveal(step);
    }

    pub proof fn lemma_perform(m: Machine, operator: Operator, global: Seq<Seq<u8>>, local: Seq<Seq<u8>>)
        ensures
            is_path(operator) ==> perform(m, operator, global, local) == perform_clearing(m, operator),
            is_stem(operator) ==> perform(m, operator, global, local) == perform_clearing(with_hints(m), operator),
            is_mask(operator) ==> perform(m, operator, global, local) == perform_mask(m, operator),
            operator == Operator::EndChar ==> perform(m, operator, global, local) == perform_end(m),
            operator == Operator::CallSubr ==> perform(m, operator, global, local) == perform_call(m, local),
            operator == Operator::CallGSubr ==> perform(m, operator, global, local) == perform_call(m, global),
            operator == Operator::Return ==> perform(m, operator, global, local) == perform_return(m),
            is_computation(operator) ==> perform(m, operator, global, local) == match computed(operator, m.stack) {
                Some(stack) => Outcome::Next(with_stack(m, stack)),
                None => Outcome::Fail,
            },
    {
        reveal(perform);
    }

    pub proof fn lemma_frames(routine: Routine<'_>)
        ensures
            frames(routine).last() == frame(routine),
            frames(routine).drop_last() == chain(routine.caller),
            frames(routine).len() == chain(routine.caller).len() + 1,
    {
        assert(frames(routine).drop_last() =~= chain(routine.caller));
    }

    pub proof fn lemma_operand_advances(data: Seq<u8>, pos: int)
        ensures match operand_dec(data, pos) {
            Dec::Good(_, p) => 0 <= pos < p <= data.len(),
            Dec::Eof => true,
            Dec::Bad => true,
            _ => false,
        }
    {
    }

    pub proof fn lemma_rolled_not(s: Seq<f32>, span: int)
        requires 0 < span <= s.len()
        ensures rolled(s, span, 0) == s
    {
        reveal(rolled);
        let base = s.len() - span;
        assert forall|i: int| base <= i < s.len() implies #[trigger] ((i - base - 0) % span) == i - base by {
            vstd::arithmetic::div_mod::lemma_small_mod((i - base) as nat, span as nat);
        }
        assert(rolled(s, span, 0) =~= s);
    }

    pub proof fn lemma_rolled_len(s: Seq<f32>, span: int, shift: int)
        ensures rolled(s, span, shift).len() == s.len()
    {
        reveal(rolled);
    }

    pub proof fn lemma_rolled_again(s: Seq<f32>, span: int, shift: int, other: int, count: int)
        requires 0 < span <= s.len(), other == shift + count * span
        ensures rolled(s, span, other) == rolled(s, span, shift)
    {
        reveal(rolled);
        let base = s.len() - span;
        assert forall|i: int| base <= i < s.len() implies #[trigger] ((i - base - other) % span) == (i - base - shift) % span by {
            vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(-count, i - base - shift, span);
            assert(span * -count + (i - base - shift) == i - base - other) by (nonlinear_arith) requires other == shift + count * span;
        }
        assert(rolled(s, span, other) =~= rolled(s, span, shift));
    }

    // One step up is to move the top below the others, and one step down is the opposite.
    pub proof fn lemma_rolled_once(s: Seq<f32>, span: int, shift: int)
        requires 0 < span <= s.len()
        ensures
            rolled(s, span, shift + 1) == rolled(s, span, shift).drop_last().insert(s.len() - span, rolled(s, span, shift).last()),
            rolled(s, span, shift - 1) == rolled(s, span, shift).remove(s.len() - span).push(rolled(s, span, shift)[s.len() - span]),
    {
        reveal(rolled);
        let base = s.len() - span;
        vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(1, -1 - shift, span);
        assert((span - 1 - shift) % span == (-1 - shift) % span);
        vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(1, -shift, span);
        assert((span - shift) % span == (0 - shift) % span);
        assert(rolled(s, span, shift + 1) =~= rolled(s, span, shift).drop_last().insert(base, rolled(s, span, shift).last()));
        assert(rolled(s, span, shift - 1) =~= rolled(s, span, shift).remove(base).push(rolled(s, span, shift)[base]));
    }

    pub proof fn lemma_chain_nested(caller: Option<Box<Routine<'_>>>, below: int)
        requires chain_sound(caller, below)
        ensures
            nested(chain(caller), below),
            forall|i: int| 0 <= i < chain(caller).len() ==> (#[trigger] chain(caller)[i]).depth < below,
        decreases caller
    {
        match caller {
            Some(routine) => {
                lemma_chain_nested(routine.caller, routine.depth as int);
                let rest = chain(routine.caller);
                assert(chain(caller) == rest.push(frame(*routine)));
            }
            None => {}
        }
    }
    pub proof fn lemma_nested(routine: Routine<'_>)
        requires routine_sound(routine)
        ensures nested(frames(routine), crate::type2::program::MAXIMUM_DEPTH as int)
    {
        lemma_chain_nested(routine.caller, routine.depth as int);
    }

    pub proof fn lemma_longest(codes: Seq<Seq<u8>>)
        ensures
            longest(codes) >= 0,
            forall|i: int| 0 <= i < codes.len() ==> (#[trigger] codes[i]).len() <= longest(codes),
        decreases codes.len()
    {
        if codes.len() > 0 {
            lemma_longest(codes.drop_last());
            assert forall|i: int| 0 <= i < codes.len() implies (#[trigger] codes[i]).len() <= longest(codes) by {
                if i < codes.len() - 1 { assert(codes.drop_last()[i] == codes[i]); }
            }
        }
    }

    pub proof fn lemma_operands_advance(data: Seq<u8>, pos: int, stack: Seq<f32>)
        ensures match operands_dec(data, pos, stack) {
            Dec::Good(_, p) => 0 <= pos <= p < data.len(),
            _ => true,
        }
        decreases data.len() - pos
    {
        if fits(data, pos, 1) && starts_operand(data[pos] as int) {
            match operand_dec(data, pos) {
                Dec::Good(value, p) => { if pos < p <= data.len() { lemma_operands_advance(data, p, stack.push(value)); } }
                _ => {}
            }
        }
    }

    pub proof fn lemma_power(base: int, exponent: nat)
        requires base > 0
        ensures
            power(base, exponent) >= 1,
            exponent > 0 ==> power(base, exponent) == base * power(base, (exponent - 1) as nat),
        decreases exponent
    {
        if exponent > 0 {
            lemma_power(base, (exponent - 1) as nat);
            assert(base * power(base, (exponent - 1) as nat) >= 1) by (nonlinear_arith)
                requires base > 0, power(base, (exponent - 1) as nat) >= 1;
        }
    }

    pub proof fn lemma_weight_positive(frames: Seq<Frame>, base: int, depth: int)
        requires base > 0
        ensures weight(frames, base, depth) >= 0
        decreases frames.len()
    {
        if frames.len() > 0 {
            lemma_weight_positive(frames.drop_last(), base, depth);
            let exponent = (depth - frames.last().depth) as nat;
            lemma_power(base, exponent);
            assert(remaining(frames.last()) * power(base, exponent) >= 0) by (nonlinear_arith)
                requires remaining(frames.last()) >= 0, power(base, exponent) >= 1;
        }
    }

    // Every step that is not the last one makes less remain.
    pub proof fn lemma_weight(m: Machine, global: Seq<Seq<u8>>, local: Seq<Seq<u8>>, base: int, depth: int)
        requires
            m.frames.len() > 0,
            nested(m.frames, depth),
            above_all(base, global),
            above_all(base, local),
            depth == crate::type2::program::MAXIMUM_DEPTH,
        ensures match step(m, global, local) {
            Outcome::Next(n) => 0 <= weight(n.frames, base, depth) < weight(m.frames, base, depth),
            _ => true,
        }
    {
        reveal(step);
        reveal(perform);
        let f = m.frames.last();
        lemma_operands_advance(f.code, f.pos, m.stack);
        match step(m, global, local) {
            Outcome::Next(n) => {
                lemma_weight_positive(n.frames, base, depth);
                let (g, operator) = fetched(m)->Some_0;
                let h = g.frames.last();
                assert(g.frames.drop_last() =~= m.frames.drop_last());
                assert(remaining(h) + 1 <= remaining(f));
                let p = power(base, (depth - f.depth) as nat);
                lemma_power(base, (depth - f.depth) as nat);
                assert(remaining(h) * p + p <= remaining(f) * p) by (nonlinear_arith)
                    requires remaining(h) + 1 <= remaining(f), p >= 1;
                assert(weight(g.frames, base, depth) + p <= weight(m.frames, base, depth));
                if operator == Operator::CallSubr || operator == Operator::CallGSubr {
                    assert(n.frames.drop_last() =~= g.frames);
                    let k = n.frames.last();
                    let q = power(base, (depth - f.depth - 1) as nat);
                    lemma_power(base, (depth - f.depth - 1) as nat);
                    assert(remaining(k) * q + q <= base * q) by (nonlinear_arith)
                        requires remaining(k) + 1 <= base, q >= 1;
                } else if operator == Operator::Return {
                    assert(n.frames == g.frames.drop_last());
                    assert(remaining(h) * p >= 0) by (nonlinear_arith) requires remaining(h) >= 0, p >= 1;
                }
            }
            _ => {}
        }
    }

    pub proof fn lemma_shifts()
        ensures
            forall|x: usize| #[trigger] (x >> 1) == x / 2,
            forall|x: usize| #[trigger] (x >> 3) == x / 8,
    {
        assert forall|x: usize| #[trigger] (x >> 1) == x / 2 by { assert(x >> 1 == x / 2) by (bit_vector); }
        assert forall|x: usize| #[trigger] (x >> 3) == x / 8 by { assert(x >> 3 == x / 8) by (bit_vector); }
    }

    // The shift may be reduced, as the code does, with the remainder of the sign of the dividend.
    pub proof fn lemma_roll(s: Seq<f32>)
        ensures
            s.len() >= 2 ==> {
                let span = i32_of(s[s.len() - 2]) as int;
                let shift = i32_of(s[s.len() - 1]) as int;
                let rest = s.take(s.len() - 2);
                &&& span == 0 ==> rolled(rest, span, shift) == rest
                &&& 0 < span <= rest.len() ==> rolled(rest, span, vstd::arithmetic::div_mod::rust_rem(shift, span)) == rolled(rest, span, shift)
                &&& 0 < span <= rest.len() ==> rolled(rest, span, shift % span) == rolled(rest, span, shift)
                &&& 0 < span <= rest.len() ==> rolled(rest, span, 0) == rest
            },
    {
        if s.len() >= 2 {
            let span = i32_of(s[s.len() - 2]) as int;
            let shift = i32_of(s[s.len() - 1]) as int;
            let rest = s.take(s.len() - 2);
            if span == 0 {
                reveal(rolled);
                assert(rolled(rest, span, shift) =~= rest);
            }
            if 0 < span <= rest.len() {
                lemma_rolled_not(rest, span);
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod(shift, span);
                assert(-(shift / span) * span == -(span * (shift / span))) by (nonlinear_arith);
                lemma_rolled_again(rest, span, shift, shift % span, -(shift / span));
                let reduced = vstd::arithmetic::div_mod::rust_rem(shift, span);
                if shift > 0 {
                    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(shift, span);
                    assert(-(shift / span) * span == -(span * (shift / span))) by (nonlinear_arith);
                    lemma_rolled_again(rest, span, shift, reduced, -(shift / span));
                } else if shift < 0 {
                    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(-shift, span);
                    assert(((-shift) / span) * span == span * ((-shift) / span)) by (nonlinear_arith);
                    lemma_rolled_again(rest, span, shift, reduced, (-shift) / span);
                }
            }
        }
    }

    pub proof fn lemma_taken(operator: Operator, n: int, j: int)
        requires
            0 <= n,
        ensures
            match taken(operator, n) {
                Some(k) => legal(operator, k) && k <= n && (legal(operator, j) && j <= n ==> j <= k),
                None => j <= n ==> !legal(operator, j),
            },
    {
    }
}

} // verus!
