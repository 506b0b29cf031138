//! What the proof assumes of std and typeface, checked by Kani on their real code.
//!
//! Each harness states the contract of the function of the same name in proof/prelude. Those without
//! an unwinding bound hold for all values of their types; the others are bounded as they say.
#![cfg(kani)]

use std::io::{Cursor, ErrorKind};
use typeface::tape::Read;

fn signed(value: i64, range: i64) -> i64 {
    if value < range / 2 {
        value
    } else {
        value - range
    }
}

// ---- all values

#[kani::proof]
fn all_u8_from_be_bytes() {
    let b: [u8; 1] = kani::any();
    assert!(u8::from_be_bytes(b) as i64 == b[0] as i64);
}

#[kani::proof]
fn all_i8_from_be_bytes() {
    let b: [u8; 1] = kani::any();
    assert!(i8::from_be_bytes(b) as i64 == signed(b[0] as i64, 1 << 8));
}

#[kani::proof]
fn all_u16_from_be_bytes() {
    let b: [u8; 2] = kani::any();
    assert!(u16::from_be_bytes(b) as i64 == b[0] as i64 * 256 + b[1] as i64);
}

#[kani::proof]
fn all_i16_from_be_bytes() {
    let b: [u8; 2] = kani::any();
    assert!(i16::from_be_bytes(b) as i64 == signed(b[0] as i64 * 256 + b[1] as i64, 1 << 16));
}

fn four(b: [u8; 4]) -> i64 {
    ((b[0] as i64 * 256 + b[1] as i64) * 256 + b[2] as i64) * 256 + b[3] as i64
}

#[kani::proof]
fn all_u32_from_be_bytes() {
    let b: [u8; 4] = kani::any();
    assert!(u32::from_be_bytes(b) as i64 == four(b));
}

#[kani::proof]
fn all_i32_from_be_bytes() {
    let b: [u8; 4] = kani::any();
    assert!(i32::from_be_bytes(b) as i64 == signed(four(b), 1 << 32));
}

#[kani::proof]
fn all_vreplace() {
    let old: u64 = kani::any();
    let new: u64 = kani::any();
    let mut place = old;
    assert!(std::mem::replace(&mut place, new) == old && place == new);
}

fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}

#[kani::proof]
fn all_axiom_f32_add_commutes() {
    let (a, b): (f32, f32) = (kani::any(), kani::any());
    // Otherwise, both sums are no numbers, which Kani counts as a failure.
    kani::assume(!a.is_nan() && !b.is_nan() && !(a.is_infinite() && b.is_infinite() && a != b));
    assert!(same(a + b, b + a));
}

#[kani::proof]
fn all_axiom_f32_eq_commutes() {
    let (a, b): (f32, f32) = (kani::any(), kani::any());
    assert!((a == b) == (b == a));
}

// ---- bounded

#[kani::proof]
#[kani::unwind(6)]
fn up_to_4_vec_drain_from() {
    let a: [u8; 4] = kani::any();
    let length: usize = kani::any();
    kani::assume(length <= 4);
    let mut vector = Vec::new();
    for i in 0..length {
        vector.push(a[i]);
    }
    let start: usize = kani::any();
    kani::assume(start <= length);
    let tail: Vec<u8> = vector.drain(start..).collect();
    assert!(vector.len() == start && tail.len() == length - start);
    for i in 0..length {
        assert!(a[i] == if i < start { vector[i] } else { tail[i - start] });
    }
}

#[kani::proof]
#[kani::unwind(6)]
fn one_string_from_utf8() {
    let a: [u8; 1] = kani::any();
    let bytes = vec![a[0]];
    let lossy = String::from_utf8_lossy(&a).into_owned();
    match String::from_utf8(bytes) {
        Ok(text) => assert!(text == lossy),
        Err(error) => assert!(error.into_bytes() == a),
    }
}

/// A tape over at most five bytes at any position at all.
fn tape(data: &[u8; 5]) -> (Cursor<&[u8]>, u64, usize) {
    let length: usize = kani::any();
    kani::assume(length <= 5);
    let mut tape = Cursor::new(&data[..length]);
    assert!(Read::position(&mut tape).unwrap() == 0);
    let position: u64 = kani::any();
    // Positions are below 2^63.
    kani::assume(position < 1 << 63);
    let result = Read::jump(&mut tape, position);
    assert!(matches!(result, Ok(p) if p == position));
    assert!(matches!(Read::position(&mut tape), Ok(p) if p == position));
    (tape, position, length)
}

fn reads<const N: usize>() {
    let data: [u8; 5] = kani::any();
    let (mut tape, position, length) = tape(&data);
    let mut bytes = [0u8; N];
    match std::io::Read::read_exact(&mut tape, &mut bytes) {
        Ok(()) => {
            assert!(position as u128 + N as u128 <= length as u128);
            let mut i = 0;
            while i < N {
                assert!(bytes[i] == data[position as usize + i]);
                i += 1;
            }
            assert!(matches!(Read::position(&mut tape), Ok(p) if p == position + N as u64));
        }
        Err(error) => {
            assert!(position as u128 + N as u128 > length as u128);
            assert!(error.kind() == ErrorKind::UnexpectedEof);
            std::mem::forget(error);
        }
    }
}

#[kani::proof]
#[kani::unwind(7)]
fn up_to_5_cursor_read_1() {
    reads::<1>();
}

#[kani::proof]
#[kani::unwind(7)]
fn up_to_5_cursor_read_2() {
    reads::<2>();
}

#[kani::proof]
#[kani::unwind(7)]
fn up_to_5_cursor_read_4() {
    reads::<4>();
}
