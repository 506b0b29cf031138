// The trusted model of what the extracted code uses from std and from the crate typeface, and the
// notions in which the contracts are written.  Every function in this file that is marked
// external_body, every assume_specification and every axiom is an assumption; all of them are
// listed in the evidence of each run.
use vstd::prelude::*;

verus! {

global size_of usize == 8;

pub type Error = crate::io::Error;
pub type Result<T> = core::result::Result<T, crate::io::Error>;

pub mod io {
    use vstd::prelude::*;

    // The kinds of std::io::ErrorKind that the code may name; all others are Other.
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub enum ErrorKind { UnexpectedEof, Other, InvalidData, InvalidInput, Unsupported, NotFound, PermissionDenied, Interrupted, WouldBlock, WriteZero, TimedOut, OutOfMemory }
    unsafe impl Structural for ErrorKind {}

    // std::io::Error: only the kind is observed; the message is dropped by the extraction.
    pub struct Error { pub kind: ErrorKind }

    impl Error {
        pub fn new(kind: ErrorKind) -> (r: Error) ensures r.kind == kind { Error { kind } }
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.kind { self.kind }
    }

    // Something whose bytes an in-memory tape reads.
    pub trait Bytes: Sized {
        spec fn bytes(&self) -> Seq<u8>;
    }
    impl Bytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
    impl<'a> Bytes for &'a Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { (*self)@ } }
    impl<'a> Bytes for &'a [u8] { open spec fn bytes(&self) -> Seq<u8> { (*self)@ } }

    // std::io::Cursor: reading and seeking in memory, which never fails but for the end of the data.
    pub struct Cursor<T> { pub inner: T, pub place: u64 }

    impl<T: Bytes> Cursor<T> {
        pub fn new(inner: T) -> (r: Cursor<T>) ensures r.inner == inner, r.place == 0 { Cursor { inner, place: 0 } }
    }

    impl<T: Bytes> crate::tape::Read for Cursor<T> {
        open spec fn data(&self) -> Seq<u8> { self.inner.bytes() }
        open spec fn pos(&self) -> int { self.place as int }
        open spec fn fault(&self) -> nat { 0 }
        #[verifier::external_body]
        fn position(&mut self) -> (r: crate::Result<u64>) { Ok(self.place) }
        #[verifier::external_body]
        fn jump(&mut self, position: u64) -> (r: crate::Result<u64>) { self.place = position; Ok(position) }
        #[verifier::external_body]
        fn read_bytes<const N: usize>(&mut self) -> (r: crate::Result<[u8; N]>) { unimplemented!() }
    }
}

pub mod tape {
    use vstd::prelude::*;
    use crate::prelude::*;

    // A tape is a sequence of bytes, a position and the number of input or output operations that
    // have failed for a reason other than the end of the data.
    pub trait Read: Sized {
        spec fn data(&self) -> Seq<u8>;
        spec fn pos(&self) -> int;
        spec fn fault(&self) -> nat;

        // typeface: self.stream_position()
        fn position(&mut self) -> (r: crate::Result<u64>)
            ensures
                final(self).data() == old(self).data(),
                old(self).fault() <= final(self).fault(),
                r is Ok ==> final(self).fault() == old(self).fault() && r->Ok_0 == old(self).pos() && final(self).pos() == old(self).pos() && r->Ok_0 <= i64::MAX,
                r is Err ==> final(self).fault() > old(self).fault() && r->Err_0.kind != crate::io::ErrorKind::UnexpectedEof;

        // typeface: self.seek(SeekFrom::Start(position))
        fn jump(&mut self, position: u64) -> (r: crate::Result<u64>)
            ensures
                final(self).data() == old(self).data(),
                old(self).fault() <= final(self).fault(),
                r is Ok ==> final(self).fault() == old(self).fault() && final(self).pos() == position,
                r is Err ==> final(self).fault() > old(self).fault() && r->Err_0.kind != crate::io::ErrorKind::UnexpectedEof;

        // { let mut buffer = [0; N]; std::io::Read::read_exact(self, &mut buffer)?; buffer }
        fn read_bytes<const N: usize>(&mut self) -> (r: crate::Result<[u8; N]>)
            ensures
                final(self).data() == old(self).data(),
                old(self).fault() <= final(self).fault(),
                match r {
                    Ok(v) => final(self).fault() == old(self).fault() && fits(old(self).data(), old(self).pos(), N as int) && v@ == old(self).data().subrange(old(self).pos(), old(self).pos() + N) && final(self).pos() == old(self).pos() + N,
                    Err(e) => if final(self).fault() == old(self).fault() { e.kind == crate::io::ErrorKind::UnexpectedEof && !fits(old(self).data(), old(self).pos(), N as int) } else { e.kind != crate::io::ErrorKind::UnexpectedEof },
                };
    }

    // The methods of typeface's trait that read values.
    pub trait Ext: Read {
        fn take<V: crate::value::Read>(&mut self) -> (r: crate::Result<V>)
            ensures
                final(self).data() == old(self).data(),
                old(self).fault() <= final(self).fault(),
                r is Ok ==> final(self).fault() == old(self).fault(),
                match r { Ok(v) => met(V::dec(old(self).data(), old(self).pos()), v.abs(), final(self).pos()), Err(e) => failed(V::dec(old(self).data(), old(self).pos()), e, old(self).fault(), final(self).fault()) },
            ;
        fn take_given<'l, V: crate::walue::Read<'l>>(&mut self, parameter: V::Parameter) -> (r: crate::Result<V>)
            requires
                V::wvalid(parameter),
            ensures
                final(self).data() == old(self).data(),
                old(self).fault() <= final(self).fault(),
                r is Ok ==> final(self).fault() == old(self).fault(),
                match r { Ok(v) => met(V::wdec(old(self).data(), old(self).pos(), parameter), v.wabs(), final(self).pos()), Err(e) => failed(V::wdec(old(self).data(), old(self).pos(), parameter), e, old(self).fault(), final(self).fault()) },
            ;
        fn peek<V: crate::value::Read>(&mut self) -> (r: crate::Result<V>)
            ensures
                final(self).data() == old(self).data(),
                old(self).fault() <= final(self).fault(),
                r is Ok ==> final(self).fault() == old(self).fault(),
                match r { Ok(v) => met_value(V::dec(old(self).data(), old(self).pos()), v.abs()) && final(self).pos() == old(self).pos(), Err(e) => failed(V::dec(old(self).data(), old(self).pos()), e, old(self).fault(), final(self).fault()) && (final(self).fault() == old(self).fault() ==> final(self).pos() == old(self).pos()) },
            ;
    }

    // The bodies are those of typeface 0.5.0.
    impl<T: Read> Ext for T {
        fn take<V: crate::value::Read>(&mut self) -> (r: crate::Result<V>) {
            crate::value::Read::read(self)
        }
        fn take_given<'l, V: crate::walue::Read<'l>>(&mut self, parameter: V::Parameter) -> (r: crate::Result<V>) {
            crate::walue::Read::read(self, parameter)
        }
        fn peek<V: crate::value::Read>(&mut self) -> (r: crate::Result<V>) {
            // self.stay(|tape| crate::value::Read::read(tape))
            let position = self.position()?;
            let result = crate::value::Read::read(self);
            self.jump(position)?;
            result
        }
    }
}

pub mod value {
    use vstd::prelude::*;
    use crate::prelude::*;

    pub trait Read: Sized {
        type Abs;
        spec fn abs(&self) -> Self::Abs;
        // What decoding the data at a position amounts to.
        spec fn dec(data: Seq<u8>, pos: int) -> Dec<Self::Abs>;

        fn read<T: crate::tape::Read>(tape: &mut T) -> (r: crate::Result<Self>)
            ensures
                final(tape).data() == old(tape).data(), //@kind functional
                old(tape).fault() <= final(tape).fault(), //@kind fault
                r is Ok ==> final(tape).fault() == old(tape).fault(), //@kind fault
                match r { Ok(v) => met(Self::dec(old(tape).data(), old(tape).pos()), v.abs(), final(tape).pos()), Err(e) => failed(Self::dec(old(tape).data(), old(tape).pos()), e, old(tape).fault(), final(tape).fault()) }, //@kind functional
            ;
    }
}

pub mod walue {
    use vstd::prelude::*;
    use crate::prelude::*;

    pub trait Read<'l>: Sized {
        type Parameter;
        type WAbs;
        spec fn wabs(&self) -> Self::WAbs;
        // The parameters that may be given.
        spec fn wvalid(parameter: Self::Parameter) -> bool;
        spec fn wdec(data: Seq<u8>, pos: int, parameter: Self::Parameter) -> Dec<Self::WAbs>;

        fn read<T: crate::tape::Read>(tape: &mut T, parameter: Self::Parameter) -> (r: crate::Result<Self>)
            requires
                Self::wvalid(parameter),
            ensures
                final(tape).data() == old(tape).data(), //@kind functional
                old(tape).fault() <= final(tape).fault(), //@kind fault
                r is Ok ==> final(tape).fault() == old(tape).fault(), //@kind fault
                match r { Ok(v) => met(Self::wdec(old(tape).data(), old(tape).pos(), parameter), v.wabs(), final(tape).pos()), Err(e) => failed(Self::wdec(old(tape).data(), old(tape).pos(), parameter), e, old(tape).fault(), final(tape).fault()) }, //@kind functional
            ;
    }
}

pub mod prelude {
    use vstd::prelude::*;
    pub use crate::tape::Ext;
    pub use crate::std_model::*;

    // The outcome of decoding.
    pub enum Dec<V> {
        // A value, and the position after it.
        Good(V, int),
        // A value; the position is left open.
        Somewhere(V),
        // The data end too early.
        Eof,
        // The data are malformed.
        Bad,
        // One of the two above.
        Fail,
        // Nothing is claimed.
        Open,
    }

    pub open spec fn failed<V>(d: Dec<V>, e: crate::io::Error, fault0: nat, fault1: nat) -> bool {
        ||| fault1 > fault0 && e.kind != crate::io::ErrorKind::UnexpectedEof
        ||| fault1 == fault0 && match d {
            Dec::Eof => e.kind == crate::io::ErrorKind::UnexpectedEof,
            Dec::Bad => e.kind != crate::io::ErrorKind::UnexpectedEof,
            Dec::Fail => true,
            Dec::Open => true,
            _ => false,
        }
    }

    pub open spec fn met<A>(d: Dec<A>, a: A, pos: int) -> bool {
        match d {
            Dec::Good(x, p) => a == x && pos == p,
            Dec::Somewhere(x) => a == x,
            Dec::Open => true,
            _ => false,
        }
    }

    pub open spec fn met_value<A>(d: Dec<A>, a: A) -> bool {
        match d {
            Dec::Good(x, _) => a == x,
            Dec::Somewhere(x) => a == x,
            Dec::Open => true,
            _ => false,
        }
    }

    // ---- bytes

    pub open spec fn fits(data: Seq<u8>, pos: int, count: int) -> bool {
        0 <= pos && 0 <= count && pos + count <= data.len()
    }
    pub open spec fn be16(data: Seq<u8>, pos: int) -> int {
        data[pos] as int * 256 + data[pos + 1] as int
    }
    pub open spec fn be24(data: Seq<u8>, pos: int) -> int {
        be16(data, pos) * 256 + data[pos + 2] as int
    }
    pub open spec fn be32(data: Seq<u8>, pos: int) -> int {
        be24(data, pos) * 256 + data[pos + 3] as int
    }
    // The two's-complement readings.
    pub open spec fn signed(value: int, modulus: int) -> int {
        if 2 * value >= modulus { value - modulus } else { value }
    }

    // The bodies are those of typeface 0.5.0 after the expansion of its macros.
    impl crate::value::Read for u8 {
        type Abs = u8;
        open spec fn abs(&self) -> u8 { *self }
        open spec fn dec(data: Seq<u8>, pos: int) -> Dec<u8> {
            if fits(data, pos, 1) { Dec::Good(data[pos], pos + 1) } else { Dec::Eof }
        }
        fn read<T: crate::tape::Read>(tape: &mut T) -> (r: crate::Result<u8>) {
            Ok(u8_from_be_bytes(tape.read_bytes::<1>()?))
        }
    }
    impl crate::value::Read for i8 {
        type Abs = i8;
        open spec fn abs(&self) -> i8 { *self }
        open spec fn dec(data: Seq<u8>, pos: int) -> Dec<i8> {
            if fits(data, pos, 1) { Dec::Good(signed(data[pos] as int, 0x100) as i8, pos + 1) } else { Dec::Eof }
        }
        fn read<T: crate::tape::Read>(tape: &mut T) -> (r: crate::Result<i8>) {
            Ok(i8_from_be_bytes(tape.read_bytes::<1>()?))
        }
    }
    impl crate::value::Read for u16 {
        type Abs = u16;
        open spec fn abs(&self) -> u16 { *self }
        open spec fn dec(data: Seq<u8>, pos: int) -> Dec<u16> {
            if fits(data, pos, 2) { Dec::Good(be16(data, pos) as u16, pos + 2) } else { Dec::Eof }
        }
        fn read<T: crate::tape::Read>(tape: &mut T) -> (r: crate::Result<u16>) {
            Ok(u16_from_be_bytes(tape.read_bytes::<2>()?))
        }
    }
    impl crate::value::Read for i16 {
        type Abs = i16;
        open spec fn abs(&self) -> i16 { *self }
        open spec fn dec(data: Seq<u8>, pos: int) -> Dec<i16> {
            if fits(data, pos, 2) { Dec::Good(signed(be16(data, pos), 0x1_0000) as i16, pos + 2) } else { Dec::Eof }
        }
        fn read<T: crate::tape::Read>(tape: &mut T) -> (r: crate::Result<i16>) {
            Ok(i16_from_be_bytes(tape.read_bytes::<2>()?))
        }
    }
    impl crate::value::Read for u32 {
        type Abs = u32;
        open spec fn abs(&self) -> u32 { *self }
        open spec fn dec(data: Seq<u8>, pos: int) -> Dec<u32> {
            if fits(data, pos, 4) { Dec::Good(be32(data, pos) as u32, pos + 4) } else { Dec::Eof }
        }
        fn read<T: crate::tape::Read>(tape: &mut T) -> (r: crate::Result<u32>) {
            Ok(u32_from_be_bytes(tape.read_bytes::<4>()?))
        }
    }
    impl crate::value::Read for i32 {
        type Abs = i32;
        open spec fn abs(&self) -> i32 { *self }
        open spec fn dec(data: Seq<u8>, pos: int) -> Dec<i32> {
            if fits(data, pos, 4) { Dec::Good(signed(be32(data, pos), 0x1_0000_0000) as i32, pos + 4) } else { Dec::Eof }
        }
        fn read<T: crate::tape::Read>(tape: &mut T) -> (r: crate::Result<i32>) {
            Ok(i32_from_be_bytes(tape.read_bytes::<4>()?))
        }
    }
    impl crate::value::Read for [u8; 3] {
        type Abs = Seq<u8>;
        open spec fn abs(&self) -> Seq<u8> { self@ }
        open spec fn dec(data: Seq<u8>, pos: int) -> Dec<Seq<u8>> {
            if fits(data, pos, 3) { Dec::Good(data.subrange(pos, pos + 3), pos + 3) } else { Dec::Eof }
        }
        fn read<T: crate::tape::Read>(tape: &mut T) -> (r: crate::Result<[u8; 3]>) {
            Ok(tape.read_bytes::<3>()?)
        }
    }
    impl crate::value::Read for [u8; 4] {
        type Abs = Seq<u8>;
        open spec fn abs(&self) -> Seq<u8> { self@ }
        open spec fn dec(data: Seq<u8>, pos: int) -> Dec<Seq<u8>> {
            if fits(data, pos, 4) { Dec::Good(data.subrange(pos, pos + 4), pos + 4) } else { Dec::Eof }
        }
        fn read<T: crate::tape::Read>(tape: &mut T) -> (r: crate::Result<[u8; 4]>) {
            Ok(tape.read_bytes::<4>()?)
        }
    }

    // Several values in a row.
    pub open spec fn dec_seq<V: crate::value::Read>(data: Seq<u8>, pos: int, count: nat) -> Dec<Seq<V::Abs>>
        decreases count
    {
        if count == 0 {
            Dec::Good(Seq::empty(), pos)
        } else {
            match dec_seq::<V>(data, pos, (count - 1) as nat) {
                Dec::Good(values, p) => match V::dec(data, p) {
                    Dec::Good(value, p) => Dec::Good(values.push(value), p),
                    Dec::Somewhere(_) => Dec::Open,
                    Dec::Open => Dec::Open,
                    Dec::Eof => Dec::Eof,
                    Dec::Bad => Dec::Bad,
                    Dec::Fail => Dec::Fail,
                },
                other => other,
            }
        }
    }

    // Failing to decode a prefix is failing to decode the whole.
    pub proof fn lemma_dec_seq_prefix<V: crate::value::Read>(data: Seq<u8>, pos: int, count: nat, more: nat)
        requires
            count <= more,
            !(dec_seq::<V>(data, pos, count) is Good),
        ensures
            dec_seq::<V>(data, pos, more) == dec_seq::<V>(data, pos, count),
        decreases more
    {
        if more > count {
            lemma_dec_seq_prefix::<V>(data, pos, count, (more - 1) as nat);
        }
    }

    pub open spec fn abs_seq<V: crate::value::Read>(values: Seq<V>) -> Seq<V::Abs> {
        Seq::new(values.len(), |i: int| values[i].abs())
    }

    pub open spec fn wabs_seq<'l, V: crate::walue::Read<'l>>(values: Seq<V>) -> Seq<V::WAbs> {
        Seq::new(values.len(), |i: int| values[i].wabs())
    }

    // The body is that of typeface 0.5.0.
    impl<V: crate::value::Read> crate::walue::Read<'static> for Vec<V> {
        type Parameter = usize;
        type WAbs = Seq<V::Abs>;
        open spec fn wabs(&self) -> Seq<V::Abs> { abs_seq(self@) }
        open spec fn wvalid(parameter: usize) -> bool { true }
        open spec fn wdec(data: Seq<u8>, pos: int, parameter: usize) -> Dec<Seq<V::Abs>> {
            dec_seq::<V>(data, pos, parameter as nat)
        }
        fn read<T: crate::tape::Read>(tape: &mut T, count: usize) -> (r: crate::Result<Vec<V>>) {
            let mut values: Vec<V> = Vec::with_capacity(count);
            let ghost data = old(tape).data();
            let ghost start = old(tape).pos();
            proof { assert(abs_seq(values@) =~= Seq::empty()); }
            for i in 0..count
                invariant
                    data == old(tape).data(),
                    start == old(tape).pos(),
                    tape.data() == data,
                    tape.fault() == old(tape).fault(),
                    values@.len() == i,
                    dec_seq::<V>(data, start, i as nat) is Open || dec_seq::<V>(data, start, i as nat) == Dec::<Seq<V::Abs>>::Good(abs_seq(values@), tape.pos()),
            {
                let ghost before = values@;
                proof {
                    if !(dec_seq::<V>(data, start, i as nat) is Good) {
                        lemma_dec_seq_prefix::<V>(data, start, i as nat, count as nat);
                    }
                    if !(dec_seq::<V>(data, start, (i + 1) as nat) is Good) {
                        lemma_dec_seq_prefix::<V>(data, start, (i + 1) as nat, count as nat);
                    }
                }
                let value: V = crate::value::Read::read(tape)?;
                values.push(value);
                proof { assert(abs_seq(values@) =~= abs_seq(before).push(value.abs())); }
            }
            Ok(values)
        }
    }

    pub broadcast proof fn lemma_abs_bytes(values: Seq<u8>)
        ensures #[trigger] abs_seq(values) == values
    {
        assert(abs_seq(values) =~= values);
    }

    pub broadcast proof fn lemma_abs_u16s(values: Seq<u16>)
        ensures #[trigger] abs_seq(values) == values
    {
        assert(abs_seq(values) =~= values);
    }

    pub broadcast proof fn lemma_abs_len<V: crate::value::Read>(values: Seq<V>)
        ensures (#[trigger] abs_seq(values)).len() == values.len()
    {
    }

    pub broadcast proof fn lemma_wabs_len<'l, V: crate::walue::Read<'l>>(values: Seq<V>)
        ensures (#[trigger] wabs_seq(values)).len() == values.len()
    {
    }

    pub broadcast group group_abs { lemma_abs_bytes, lemma_abs_u16s, lemma_abs_len, lemma_wabs_len }

    // Bytes in a row.
    pub proof fn lemma_dec_bytes(data: Seq<u8>, pos: int, count: nat)
        requires
            0 <= pos,
        ensures
            dec_seq::<u8>(data, pos, count) == (if count == 0 || fits(data, pos, count as int) {
                Dec::<Seq<u8>>::Good(Seq::new(count, |i: int| data[pos + i]), pos + count)
            } else {
                Dec::<Seq<u8>>::Eof
            }),
        decreases count
    {
        if count > 0 {
            lemma_dec_bytes(data, pos, (count - 1) as nat);
            if fits(data, pos, count as int) {
                assert(Seq::new((count - 1) as nat, |i: int| data[pos + i]).push(data[pos + count - 1]) =~= Seq::new(count, |i: int| data[pos + i]));
            }
        } else {
            assert(Seq::new(0, |i: int| data[pos + i]) =~= Seq::<u8>::empty());
        }
    }

    // 16-bit numbers in a row.
    pub proof fn lemma_dec_u16s(data: Seq<u8>, pos: int, count: nat)
        requires
            0 <= pos,
        ensures
            dec_seq::<u16>(data, pos, count) == (if count == 0 || fits(data, pos, 2 * count as int) {
                Dec::<Seq<u16>>::Good(Seq::new(count, |i: int| be16(data, pos + 2 * i) as u16), pos + 2 * count)
            } else {
                Dec::<Seq<u16>>::Eof
            }),
        decreases count
    {
        if count > 0 {
            lemma_dec_u16s(data, pos, (count - 1) as nat);
            if fits(data, pos, 2 * count as int) {
                assert(Seq::new((count - 1) as nat, |i: int| be16(data, pos + 2 * i) as u16).push(be16(data, pos + 2 * (count - 1)) as u16)
                    =~= Seq::new(count, |i: int| be16(data, pos + 2 * i) as u16));
            }
        } else {
            assert(Seq::new(0, |i: int| be16(data, pos + 2 * i) as u16) =~= Seq::<u16>::empty());
        }
    }
}

} // verus!
