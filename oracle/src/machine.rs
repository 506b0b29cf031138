//! A reference implementation of Type 2 charstrings (TN5177), written from the format's text.
use crate::model::show_f32;

/// Codes of the operators that are produced.
pub fn name(code: u16) -> Option<&'static str> {
    Some(match code {
        1 => "HStem",
        3 => "VStem",
        4 => "VMoveTo",
        5 => "RLineTo",
        6 => "HLineTo",
        7 => "VLineTo",
        8 => "RRCurveTo",
        18 => "HStemHM",
        19 => "HintMask",
        20 => "CntrMask",
        21 => "RMoveTo",
        22 => "HMoveTo",
        23 => "VStemHM",
        24 => "RCurveLine",
        25 => "RLineCurve",
        26 => "VVCurveTo",
        27 => "HHCurveTo",
        30 => "VHCurveTo",
        31 => "HVCurveTo",
        0x0c22 => "HFlex",
        0x0c23 => "Flex",
        0x0c24 => "HFlex1",
        0x0c25 => "Flex1",
        _ => return None,
    })
}

/// Whether a number of operands is legal.
pub fn legal(code: u16, n: usize) -> bool {
    match code {
        21 => n == 2,
        4 | 22 => n == 1,
        5 => n >= 2 && n % 2 == 0,
        6 | 7 => n >= 1,
        8 => n >= 6 && n % 6 == 0,
        26 | 27 => n >= 4 && n % 4 <= 1,
        30 | 31 => n >= 4 && n % 4 <= 1,
        24 => n >= 8 && n % 6 == 2,
        25 => n >= 8 && n % 2 == 0,
        1 | 3 | 18 | 23 => n >= 2 && n % 2 == 0,
        0x0c22 => n == 7,
        0x0c23 => n == 13,
        0x0c24 => n == 9,
        0x0c25 => n == 11,
        _ => false,
    }
}

pub struct Machine<'d> {
    pub frames: Vec<(&'d [u8], usize)>,
    pub global: &'d [Vec<u8>],
    pub local: &'d [Vec<u8>],
    pub stack: Vec<f32>,
    pub stems: usize,
    pub width: Option<f32>,
    pub cleared: bool,
    pub deepest: usize,
}

pub enum Event {
    Operation(&'static str, Vec<f32>),
    End,
    Error,
}

impl<'d> Machine<'d> {
    pub fn new(code: &'d [u8], global: &'d [Vec<u8>], local: &'d [Vec<u8>]) -> Self {
        Machine {
            frames: vec![(code, 0)],
            global,
            local,
            stack: vec![],
            stems: 0,
            width: None,
            cleared: false,
            deepest: 0,
        }
    }

    fn byte(&mut self) -> Option<u8> {
        let (code, at) = self.frames.last_mut().unwrap();
        let byte = code.get(*at).copied()?;
        *at += 1;
        Some(byte)
    }

    fn word(&mut self) -> Option<u16> {
        Some(self.byte()? as u16 * 256 + self.byte()? as u16)
    }

    fn integer(&mut self) -> Option<i32> {
        let value = self.stack.pop()?;
        (value as i32 as f32 == value).then_some(value as i32)
    }

    fn clear(&mut self, keep: Option<usize>) {
        if !self.cleared {
            self.width = keep.map(|at| self.stack[at]);
        }
        self.cleared = true;
    }

    pub fn next(&mut self, limit: &mut usize) -> Event {
        loop {
            if *limit == 0 {
                return Event::Error;
            }
            *limit -= 1;
            let (code, at) = *self.frames.last().unwrap();
            if at == code.len() {
                return Event::End;
            }
            match self.step() {
                Some(None) => {}
                Some(Some(event)) => return event,
                None => return Event::Error,
            }
        }
    }

    /// One byte's worth of progress: an operand or an operator.
    fn step(&mut self) -> Option<Option<Event>> {
        let first = self.byte()?;
        let operand = match first {
            32..=246 => Some(first as f32 - 139.0),
            247..=250 => Some((first as i32 - 247) as f32 * 256.0 + self.byte()? as f32 + 108.0),
            251..=254 => Some(-((first as i32 - 251) as f32) * 256.0 - self.byte()? as f32 - 108.0),
            28 => Some(self.word()? as i16 as f32),
            255 => {
                let (high, low) = (self.word()?, self.word()?);
                let fixed = ((high as u32) << 16 | low as u32) as i32;
                Some((fixed as f64 / 65536.0) as f32)
            }
            _ => None,
        };
        if let Some(operand) = operand {
            self.stack.push(operand);
            // The end of the data within a sequence of operands is an error.
            let (code, at) = *self.frames.last().unwrap();
            return if at == code.len() { None } else { Some(None) };
        }
        let code = if first == 12 { 0x0c00 + self.byte()? as u16 } else { first as u16 };
        let n = self.stack.len();
        match code {
            19 | 20 => {
                self.stems += n / 2;
                for _ in 0..(self.stems + 7) / 8 {
                    self.byte()?;
                }
                self.clear((n % 2 == 1).then_some(0));
                self.stack.clear();
                return Some(Some(Event::Operation(name(code).unwrap(), vec![])));
            }
            _ if name(code).is_some() => {
                if matches!(code, 1 | 3 | 18 | 23) {
                    self.stems += n / 2;
                }
                let count = (0..=n).rev().find(|k| legal(code, *k))?;
                self.clear((count < n).then(|| n - count - 1));
                let operands = self.stack.split_off(n - count);
                self.stack.clear();
                return Some(Some(Event::Operation(name(code).unwrap(), operands)));
            }
            14 => {
                while self.frames.len() > 1 {
                    let (code, at) = self.frames.pop().unwrap();
                    if at != code.len() {
                        return None;
                    }
                }
                let length = self.frames[0].0.len();
                self.frames[0].1 = length;
                let count = if n >= 4 { 4 } else { 0 };
                self.clear((n > count).then(|| n - count - 1));
                return Some(Some(Event::End));
            }
            10 | 29 => {
                let list = if code == 10 { self.local } else { self.global };
                let bias = match list.len() {
                    0..=1239 => 107,
                    1240..=33899 => 1131,
                    _ => 32768,
                };
                let number = self.integer()? as i64 + bias;
                if number < 0 || number >= list.len() as i64 || self.frames.len() > 16 {
                    return None;
                }
                self.frames.push((&list[number as usize], 0));
                self.deepest = self.deepest.max(self.frames.len() - 1);
            }
            11 => {
                if self.frames.len() < 2 {
                    return None;
                }
                self.frames.pop();
            }
            0x0c09 => {
                let x = self.stack.pop()?;
                self.stack.push(if x.is_sign_negative() { -x } else { x });
            }
            0x0c0e => {
                let x = self.stack.pop()?;
                self.stack.push(-x);
            }
            0x0c1a => {
                let x = self.stack.pop()?;
                self.stack.push(x.sqrt());
            }
            0x0c12 => {
                self.stack.pop()?;
            }
            0x0c1b => {
                let x = *self.stack.last()?;
                self.stack.push(x);
            }
            0x0c05 => {
                let x = self.stack.pop()?;
                self.stack.push(if x == 0.0 { 1.0 } else { 0.0 });
            }
            0x0c0a | 0x0c0b | 0x0c0c | 0x0c18 | 0x0c1c | 0x0c03 | 0x0c04 | 0x0c0f => {
                let y = self.stack.pop()?;
                let x = self.stack.pop()?;
                let truth = |b: bool| if b { 1.0 } else { 0.0 };
                match code {
                    0x0c0a => self.stack.push(x + y),
                    0x0c0b => self.stack.push(x - y),
                    0x0c0c => self.stack.push(x / y),
                    0x0c18 => self.stack.push(x * y),
                    0x0c1c => self.stack.extend([y, x]),
                    0x0c03 => self.stack.push(truth(x != 0.0 && y != 0.0)),
                    0x0c04 => self.stack.push(truth(x != 0.0 || y != 0.0)),
                    _ => self.stack.push(truth(x == y)),
                }
            }
            0x0c16 => {
                if n < 4 {
                    return None;
                }
                let rest = self.stack.split_off(n - 4);
                self.stack.push(if rest[2] <= rest[3] { rest[0] } else { rest[1] });
            }
            0x0c1d => {
                let i = self.integer()?.max(0) as usize;
                let n = self.stack.len();
                if i >= n {
                    return None;
                }
                self.stack.push(self.stack[n - 1 - i]);
            }
            0x0c1e => {
                let shift = self.integer()? as i64;
                let span = self.integer()? as i64;
                let n = self.stack.len();
                if span < 0 || span > n as i64 {
                    return None;
                }
                if span > 0 {
                    let old = self.stack.split_off(n - span as usize);
                    for i in 0..span {
                        self.stack.push(old[(i - shift).rem_euclid(span) as usize]);
                    }
                }
            }
            _ => return None,
        }
        // What follows within the same step must be there, as with operands.
        Some(None)
    }
}

pub fn show_operands(list: &[f32]) -> String {
    list.iter().map(|f| show_f32(*f)).collect::<Vec<_>>().join(" ")
}
