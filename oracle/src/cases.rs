//! Cases, and their evaluation by the real crate and by the reference implementation.
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};

use postscript::compact1::{self as c1, font_set, index};
use postscript::tape::Read;
use postscript::type2;

use crate::fault::{Faulty, Sparse};
use crate::machine;
use crate::model::{self, Num, Reader, R};

/// What is run, and on which input.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub kind: String,
    pub n: i64,
    pub m: i64,
    pub data: Vec<u8>,
    pub one: Vec<Vec<u8>>,
    pub two: Vec<Vec<u8>>,
}

impl Case {
    pub fn new(kind: &str, n: i64, m: i64, data: Vec<u8>) -> Self {
        Case { kind: kind.into(), n, m, data, one: vec![], two: vec![] }
    }
    pub fn text(&self) -> String {
        let list = |l: &[Vec<u8>]| {
            // Long runs of the same object are written with a count.
            let mut parts: Vec<String> = vec![];
            let mut i = 0;
            while i < l.len() {
                let mut j = i;
                while j < l.len() && l[j] == l[i] {
                    j += 1;
                }
                parts.push(format!("{}*{}", j - i, model::hex(&l[i])));
                i = j;
            }
            parts.join(",")
        };
        format!(
            "{}|{}|{}|{}|{}|{}",
            self.kind,
            self.n,
            self.m,
            model::hex(&self.data),
            list(&self.one),
            list(&self.two)
        )
    }
    /// The place and size of a hole in the data.
    pub fn hole(&self) -> Option<(usize, usize)> {
        let bytes: [u8; 16] = self.one.first()?.as_slice().try_into().ok()?;
        let n = u128::from_be_bytes(bytes);
        Some(((n >> 64) as usize, n as u64 as usize))
    }
    pub fn parse(text: &str) -> Option<Self> {
        let parts: Vec<&str> = text.split('|').collect();
        let bytes = |t: &str| -> Vec<u8> {
            (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect()
        };
        let list = |t: &str| -> Vec<Vec<u8>> {
            let mut out = vec![];
            for part in t.split(',').filter(|p| !p.is_empty()) {
                let (count, object) = part.split_once('*').unwrap();
                for _ in 0..count.parse::<usize>().unwrap() {
                    out.push(bytes(object));
                }
            }
            out
        };
        if parts.len() != 6 {
            return None;
        }
        Some(Case {
            kind: parts[0].into(),
            n: parts[1].parse().ok()?,
            m: parts[2].parse().ok()?,
            data: bytes(parts[3]),
            one: list(parts[4]),
            two: list(parts[5]),
        })
    }
}

fn outcome(result: R<String>) -> String {
    result.unwrap_or_else(|_| "Err".into())
}

fn guarded<F: FnOnce() -> R<String>>(body: F) -> String {
    match catch_unwind(AssertUnwindSafe(body)) {
        Ok(result) => outcome(result),
        Err(payload) => {
            let text = payload
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| payload.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            format!("panic: {text}")
        }
    }
}

fn num(n: &c1::Number) -> Num {
    match n {
        c1::Number::Integer(i) => Num::Int(*i),
        c1::Number::Real(f) => Num::Real(*f),
    }
}

fn dict(operations: &c1::Operations) -> model::Dict {
    operations.0.iter().map(|(k, v)| (format!("{k:?}"), v.iter().map(num).collect())).collect()
}

fn show_dicts(list: &[c1::Operations]) -> String {
    list.iter().map(|o| model::show_dict(&dict(o))).collect::<Vec<_>>().join(" ")
}

fn show_charset(set: &c1::CharacterSet) -> String {
    use c1::CharacterSet::*;
    match set {
        ISOAdobe => "ISOAdobe".into(),
        Expert => "Expert".into(),
        ExpertSubset => "ExpertSubset".into(),
        Format0(s) => {
            let list: Vec<_> = s.glyphs.iter().map(|g| g.to_string()).collect();
            format!("{}:{}", s.format, list.join(","))
        }
        Format1(s) => {
            let list: Vec<_> =
                s.ranges.iter().map(|r| format!("{}+{}", r.first_string_id, r.left_count)).collect();
            format!("{}:{}", s.format, list.join(","))
        }
        Format2(s) => {
            let list: Vec<_> =
                s.ranges.iter().map(|r| format!("{}+{}", r.first_string_id, r.left_count)).collect();
            format!("{}:{}", s.format, list.join(","))
        }
    }
}

fn show_encoding(encoding: &c1::Encoding) -> String {
    use c1::Encoding::*;
    match encoding {
        Standard => "Standard".into(),
        Expert => "Expert".into(),
        Format0(e) => {
            let list: Vec<_> = e.codes.iter().map(|c| c.to_string()).collect();
            format!("{}:{}:{}", e.format, e.code_count, list.join(","))
        }
        Format1(e) => {
            let list: Vec<_> =
                e.ranges.iter().map(|r| format!("{}+{}", r.first_code, r.left_count)).collect();
            format!("{}:{}:{}", e.format, e.range_count, list.join(","))
        }
        FormatSupplemental(e) => {
            let list: Vec<_> = e.supplements.iter().map(|s| format!("{}={}", s.code, s.glyph)).collect();
            format!("s{}:{}:{}", e.format, e.supplement_count, list.join(","))
        }
    }
}

fn show_mapping(encoding: &font_set::character_id_keyed::Encoding) -> String {
    use font_set::character_id_keyed::Encoding::*;
    match encoding {
        Format0(e) => format!("{}:{}", e.format, model::hex(&e.dictionary_ids)),
        Format3(e) => {
            let list: Vec<_> =
                e.ranges.iter().map(|r| format!("{}>{}", r.first_glyph_id, r.dictionary_id)).collect();
            format!("{}:{}:{}:{}", e.format, e.range_count, list.join(","), e.glyph_count)
        }
    }
}

fn show_index(index: &index_like::Index) -> String {
    let offsets: Vec<_> = index.offsets.iter().map(|o| o.0).collect();
    format!("{} {} {:?} {}", index.count, index.offset_size, offsets, model::show_objects(&index.data))
}

mod index_like {
    pub use postscript::compact1::Index;
}

fn show_idx(index: &model::Idx) -> String {
    format!("{} {} {:?} {}", index.objects.len(), index.size, index.offsets, model::show_objects(&index.objects))
}

fn fail<E>(_: E) {}

/// The parts of a font set that a property speaks of.
fn show_font_set(part: i64, set: &c1::FontSet) -> String {
    let mut out = vec![];
    let all = part == 0;
    if all || part == 10 {
        out.push(format!("header {:?}", (set.header.major, set.header.minor, set.header.header_size, set.header.offset_size)));
        out.push(format!("names {}", show_index(&set.names.0)));
        out.push(format!("dicts {}", show_dicts(&set.operations)));
        out.push(format!("strings {}", show_index(&set.strings.0)));
        out.push(format!("subrs {}", show_index(&set.subroutines.0)));
        for (i, strings) in set.character_strings.iter().enumerate() {
            out.push(format!("charstrings{i} {}", show_index(&strings.0)));
        }
        for (i, charset) in set.character_sets.iter().enumerate() {
            out.push(format!("charset{i} {}", show_charset(charset)));
        }
        for (i, encoding) in set.encodings.iter().enumerate() {
            out.push(format!("encoding{i} {}", show_encoding(encoding)));
        }
    }
    out.push(format!("records {}", set.records.len()));
    for (i, record) in set.records.iter().enumerate() {
        match record {
            font_set::Record::CharacterIDKeyed(r) => {
                if all || part == 13 {
                    out.push(format!(
                        "cid{i} {} {} {} {} {}",
                        r.registry,
                        r.ordering,
                        model::show_num(num(&r.supplement)),
                        show_mapping(&r.encoding),
                        show_dicts(&r.operations)
                    ));
                }
                out.push(format!("inner {}", r.records.len()));
                if all || part == 12 {
                    for r in &r.records {
                        out.push(format!("private {} {}", model::show_dict(&dict(&r.operations)), show_index(&r.subroutines.0)));
                    }
                }
            }
            font_set::Record::CharacterNameKeyed(r) => {
                out.push(format!("name{i}"));
                if all || part == 12 {
                    out.push(format!("private {} {}", model::show_dict(&dict(&r.operations)), show_index(&r.subroutines.0)));
                }
            }
        }
    }
    out.join("\n")
}

fn show_model_font_set(part: i64, set: &model::FontSet) -> String {
    let mut out = vec![];
    let all = part == 0;
    let dicts = |list: Vec<&model::Dict>| list.iter().map(|d| model::show_dict(d)).collect::<Vec<_>>().join(" ");
    if all || part == 10 {
        let h = set.header;
        out.push(format!("header {:?}", (h[0], h[1], h[2], h[3])));
        out.push(format!("names {}", show_idx(&set.names)));
        out.push(format!("dicts {}", dicts(set.fonts.iter().map(|f| &f.dict).collect())));
        out.push(format!("strings {}", show_idx(&set.strings)));
        out.push(format!("subrs {}", show_idx(&set.subrs)));
        for (i, font) in set.fonts.iter().enumerate() {
            out.push(format!("charstrings{i} {}", show_idx(&font.charstrings)));
        }
        for (i, font) in set.fonts.iter().enumerate() {
            out.push(format!("charset{i} {}", font.charset));
        }
        for (i, font) in set.fonts.iter().enumerate() {
            out.push(format!("encoding{i} {}", font.encoding));
        }
    }
    out.push(format!("records {}", set.fonts.len()));
    for (i, font) in set.fonts.iter().enumerate() {
        match &font.cid {
            Some(cid) => {
                if all || part == 13 {
                    out.push(format!(
                        "cid{i} {} {} {} {} {}",
                        cid.registry,
                        cid.ordering,
                        model::show_num(cid.supplement),
                        cid.mapping,
                        dicts(cid.dicts.iter().collect())
                    ));
                }
                out.push(format!("inner {}", font.private.len()));
            }
            None => out.push(format!("name{i}")),
        }
        if all || part == 12 {
            for p in &font.private {
                out.push(format!("private {} {}", model::show_dict(&p.dict), show_idx(&p.subrs)));
            }
        }
    }
    out.join("\n")
}

const MAXIMUM_EVENTS: usize = 400;

fn show_program(part: i64, events: &[(String, String, Option<f32>)]) -> String {
    let mut out = vec![];
    for (name, operands, width) in events {
        let width = width.map(model::show_f32).unwrap_or("none".into());
        out.push(match part {
            18 => format!("{name} width {width}"),
            17 => name.clone(),
            0 => format!("{name} {operands} width {width}"),
            _ => format!("{name} {operands}"),
        });
    }
    out.join("\n")
}

/// Three more requests after the end have to give the end again.
const AFTERWARDS: usize = 3;

fn run_program(case: &Case) -> R<String> {
    let mut program = type2::Program::new(&case.data, &case.one, &case.two);
    let mut events = vec![];
    let mut ended = 0;
    for _ in 0..MAXIMUM_EVENTS {
        match program.next() {
            Ok(Some((operator, operands))) => {
                events.push((format!("{operator:?}"), machine::show_operands(&operands), program.width()));
                if ended > 0 {
                    break;
                }
            }
            Ok(None) => {
                events.push(("end".into(), "".into(), program.width()));
                ended += 1;
                if ended > AFTERWARDS {
                    break;
                }
            }
            Err(_) => {
                events.push(("error".into(), "".into(), None));
                break;
            }
        }
    }
    Ok(show_program(case.n, &events))
}

fn model_program(case: &Case) -> Option<String> {
    let mut m = machine::Machine::new(&case.data, &case.one, &case.two);
    let mut events = vec![];
    let mut ended = 0;
    let mut limit = 200_000;
    for _ in 0..MAXIMUM_EVENTS {
        match m.next(&mut limit) {
            machine::Event::Operation(name, operands) => {
                events.push((name.to_string(), machine::show_operands(&operands), m.width))
            }
            machine::Event::End => {
                events.push(("end".into(), "".into(), m.width));
                ended += 1;
                if ended > AFTERWARDS {
                    break;
                }
            }
            machine::Event::Error => {
                events.push(("error".into(), "".into(), None));
                break;
            }
        }
    }
    // Between ten levels, which the format allows, and endless recursion, the limit is free.
    if limit == 0 || (m.deepest > 10 && case.m == 0) {
        return None;
    }
    Some(show_program(case.n, &events))
}

fn number_of(case: &Case) -> c1::Number {
    if case.m == 0 {
        c1::Number::Integer(case.n as i32)
    } else {
        c1::Number::Real(f32::from_bits(case.n as u32))
    }
}

/// The result expected and the result obtained; nothing if the case does not count.
pub fn evaluate(case: &Case) -> Option<(String, String)> {
    let data = &case.data;
    let at = |case: &Case| {
        let mut tape = Cursor::new(case.data.clone());
        tape.set_position(case.m as u64);
        tape
    };
    let end = |tape: &mut Cursor<Vec<u8>>| Cursor::position(tape);
    let pair = match case.kind.as_str() {
        "header" => (
            outcome(Reader::new(data, 0).bytes(4).map(|b| format!("{b:?}"))),
            guarded(|| {
                let h = Cursor::new(data).take::<c1::Header>().map_err(fail)?;
                Ok(format!("{:?}", [h.major, h.minor, h.header_size, h.offset_size]))
            }),
        ),
        "offset" => (
            outcome(if (1..=4).contains(&case.n) {
                Reader::new(data, 0).big(case.n as usize).map(|v| v.to_string())
            } else {
                Err(())
            }),
            guarded(|| {
                let o = Cursor::new(data).take_given::<c1::Offset>(case.n as u8).map_err(fail)?;
                Ok(o.0.to_string())
            }),
        ),
        "index" => {
            let mut r = Reader::new(data, case.m as usize);
            let strings = case.n > 4;
            (
                outcome(if strings && case.n != 102 {
                    Err(())
                } else {
                    model::index(&mut r).map(|i| format!("{} @{}", show_idx(&i), r.at))
                }),
                guarded(|| {
                    let mut tape = at(case);
                    let index = match case.n {
                        0 => tape.take::<c1::Index>().map_err(fail)?,
                        1 => tape.take::<index::Names>().map_err(fail)?.0,
                        2 => tape.take::<index::Strings>().map_err(fail)?.0,
                        3 => tape.take::<index::Subroutines>().map_err(fail)?.0,
                        4 => tape.take::<index::Dictionaries>().map_err(fail)?.0,
                        n => tape.take_given::<index::CharacterStrings>(n as i32 - 100).map_err(fail)?.0,
                    };
                    let position = end(&mut tape);
                    Ok(format!("{} @{position}", show_index(&index)))
                }),
            )
        }
        "number" => {
            let mut r = Reader::new(data, 0);
            (
                outcome(model::number(&mut r).map(|n| format!("{} @{}", model::show_num(n), r.at))),
                guarded(|| {
                    let mut tape = at(case);
                    let n = tape.take::<c1::Number>().map_err(fail)?;
                    Ok(format!("{} @{}", model::show_num(num(&n)), end(&mut tape)))
                }),
            )
        }
        "number_from" => (
            if case.m == 0 {
                model::show_num(Num::Int(case.n as i32))
            } else {
                model::show_num(Num::Real(f32::from_bits(case.n as u32)))
            },
            guarded(|| {
                Ok(model::show_num(num(&if case.m == 0 {
                    c1::Number::from(case.n as i32)
                } else {
                    c1::Number::from(f32::from_bits(case.n as u32))
                })))
            }),
        ),
        "dictionary" => (
            outcome(model::dictionary(data).map(|d| model::show_dict(&d))),
            guarded(|| {
                let o = Cursor::new(data).take::<c1::Operations>().map_err(fail)?;
                Ok(model::show_dict(&dict(&o)))
            }),
        ),
        "lookup" => {
            let (code, name, _) = model::OPERATORS[case.n as usize % model::OPERATORS.len()];
            (
                outcome(model::dictionary(data).map(|d| {
                    let list = model::get(&d, name);
                    let single = list.and_then(|l| l.first()).map(|n| model::show_num(*n));
                    let double = list.filter(|l| l.len() > 1).map(|l| model::show_nums(&l[..2]));
                    format!("{name} {:?} {single:?} {double:?} default {:?}", list.map(model::show_nums),
                        model::get(&Default::default(), name).map(model::show_nums))
                })),
                guarded(|| {
                    let o = Cursor::new(data).take::<c1::Operations>().map_err(fail)?;
                    let operator = c1::Operator::from(code).map_err(fail)?;
                    let list: Option<Vec<Num>> = o.get(operator).map(|l| l.iter().map(num).collect());
                    let single = o.get_single(operator).map(|n| model::show_num(num(&n)));
                    let double = o.get_double(operator).map(|(a, b)| model::show_nums(&[num(&a), num(&b)]));
                    let default: Option<Vec<Num>> = operator.default().map(|l| l.iter().map(num).collect());
                    Ok(format!("{operator:?} {:?} {single:?} {double:?} default {:?}",
                        list.map(|l| model::show_nums(&l)), default.map(|l| model::show_nums(&l))))
                }),
            )
        }
        "operator" => (
            model::name_of(case.n as u16).unwrap_or("Err").to_string(),
            guarded(|| Ok(format!("{:?}", c1::Operator::from(case.n as u16).map_err(fail)?))),
        ),
        "charset" => {
            let mut r = Reader::new(data, case.m as usize);
            (
                outcome(model::charset(&mut r, case.n as usize).map(|s| format!("{s} @{}", r.at))),
                guarded(|| {
                    let mut tape = at(case);
                    let s = tape.take_given::<c1::CharacterSet>(case.n as usize).map_err(fail)?;
                    Ok(format!("{} @{}", show_charset(&s), end(&mut tape)))
                }),
            )
        }
        "charset_part" => {
            // One format alone.
            let mut r = Reader::new(data, 0);
            let format = data.first().copied();
            (
                outcome(if format.map(|f| f as i64) == Some(case.m) {
                    model::charset(&mut r, case.n as usize)
                } else {
                    Err(())
                }),
                guarded(|| {
                    use c1::character_set::*;
                    let mut tape = Cursor::new(data);
                    let glyphs = case.n as usize;
                    Ok(show_charset(&match case.m {
                        0 => CharacterSet::Format0(tape.take_given::<CharacterSet0>(glyphs).map_err(fail)?),
                        1 => CharacterSet::Format1(tape.take_given::<CharacterSet1>(glyphs).map_err(fail)?),
                        _ => CharacterSet::Format2(tape.take_given::<CharacterSet2>(glyphs).map_err(fail)?),
                    }))
                }),
            )
        }
        "member" => {
            let id = case.n as u16;
            (
                format!("{:?}", if case.m < 3 { model::member(case.m as u8, id) } else { None }),
                guarded(|| {
                    let set = match case.m {
                        0 => c1::CharacterSet::ISOAdobe,
                        1 => c1::CharacterSet::Expert,
                        2 => c1::CharacterSet::ExpertSubset,
                        n => Cursor::new(data).take_given::<c1::CharacterSet>(n as usize).map_err(fail)?,
                    };
                    Ok(format!("{:?}", set.get(id)))
                }),
            )
        }
        "encoding" => {
            let mut r = Reader::new(data, case.m as usize);
            (
                outcome(model::encoding(&mut r).map(|s| format!("{s} @{}", r.at))),
                guarded(|| {
                    let mut tape = at(case);
                    let e = tape.take::<c1::Encoding>().map_err(fail)?;
                    Ok(format!("{} @{}", show_encoding(&e), end(&mut tape)))
                }),
            )
        }
        "members" => (
            // All identifiers at once.
            outcome(model::charset(&mut Reader::new(data, 0), case.n as usize).map(|_| "no names".into())),
            guarded(|| {
                let set = Cursor::new(data).take_given::<c1::CharacterSet>(case.n as usize).map_err(fail)?;
                for id in 0..=u16::MAX {
                    if let Some(name) = set.get(id) {
                        return Ok(format!("{id} is {name}"));
                    }
                }
                Ok("no names".into())
            }),
        ),
        "encodings_get" => (
            outcome(model::encoding(&mut Reader::new(data, 0)).map(|_| "no strings".into())),
            guarded(|| {
                let encoding = Cursor::new(data).take::<c1::Encoding>().map_err(fail)?;
                for code in 0..=u16::MAX {
                    if let Some(id) = encoding.get(code) {
                        return Ok(format!("{code} is {id}"));
                    }
                }
                Ok("no strings".into())
            }),
        ),
        "encoding_get" => (
            format!("{:?}", if case.m < 2 { model::code(case.m == 1, case.n as u16) } else { None }),
            guarded(|| {
                let encoding = match case.m {
                    0 => c1::Encoding::Standard,
                    1 => c1::Encoding::Expert,
                    _ => Cursor::new(data).take::<c1::Encoding>().map_err(fail)?,
                };
                Ok(format!("{:?}", encoding.get(case.n as u16)))
            }),
        ),
        "string" => (
            outcome(model::index(&mut Reader::new(data, 0)).map(|i| format!("{:?}", model::string(&i.objects, case.n as u16)))),
            guarded(|| {
                let strings = Cursor::new(data).take::<index::Strings>().map_err(fail)?;
                Ok(format!("{:?}", strings.get(case.n as u16)))
            }),
        ),
        "string_id" => {
            let n = number_of(case);
            (
                outcome(model::string_id(num(&n)).map(|i| i.to_string())),
                guarded(|| Ok(c1::StringID::try_from(n).map_err(fail)?.to_string())),
            )
        }
        "names" => (
            outcome(model::index(&mut Reader::new(data, 0)).map(|i| {
                format!("{:?}", i.objects.iter().map(|o| model::text(o)).collect::<Vec<_>>())
            })),
            guarded(|| {
                let names = Cursor::new(data).take::<index::Names>().map_err(fail)?;
                let names: Vec<String> = names.try_into().map_err(fail)?;
                Ok(format!("{names:?}"))
            }),
        ),
        "dictionaries" => (
            outcome(model::index(&mut Reader::new(data, 0)).and_then(|i| {
                let one = match i.objects.get(case.n as usize) {
                    Some(object) => outcome(model::dictionary(object).map(|d| model::show_dict(&d))),
                    None => "none".into(),
                };
                let all = outcome(model::dictionaries(&i).map(|l| l.iter().map(model::show_dict).collect::<Vec<_>>().join(" ")));
                Ok(format!("{one} / {all}"))
            })),
            guarded(|| {
                let d = Cursor::new(data).take::<index::Dictionaries>().map_err(fail)?;
                let one = match d.len() > case.n as usize {
                    true => outcome(d.get(case.n as usize).map_err(fail).map(|o| model::show_dict(&dict(&o)))),
                    false => "none".into(),
                };
                let all: Result<Vec<c1::Operations>, _> = (&d).try_into();
                Ok(format!("{one} / {}", outcome(all.map_err(fail).map(|l| show_dicts(&l)))))
            }),
        ),
        "mapping" => {
            let mut r = Reader::new(data, 0);
            (
                outcome(model::mapping(&mut r, case.n as usize).map(|s| format!("{s} @{}", r.at))),
                guarded(|| {
                    use font_set::character_id_keyed::Encoding;
                    // The number of glyphs is that of an index of empty strings.
                    let mut bytes = (case.n as u16).to_be_bytes().to_vec();
                    if case.n > 0 {
                        bytes.push(1);
                        bytes.extend(std::iter::repeat(1).take(case.n as usize + 1));
                    }
                    let strings = Cursor::new(bytes).take_given::<index::CharacterStrings>(2).map_err(fail)?;
                    let mut tape = Cursor::new(data.clone());
                    let e = tape.take_given::<Encoding>(&strings).map_err(fail)?;
                    Ok(format!("{} @{}", show_mapping(&e), Cursor::position(&tape)))
                }),
            )
        }
        "mapping0" => {
            // Format 0 alone.
            let mut r = Reader::new(data, 0);
            (
                outcome(if data.first() == Some(&0) { model::mapping(&mut r, case.n as usize) } else { Err(()) }),
                guarded(|| {
                    use font_set::character_id_keyed::{Encoding, Encoding0};
                    let mut bytes = (case.n as u16).to_be_bytes().to_vec();
                    if case.n > 0 {
                        bytes.push(1);
                        bytes.extend(std::iter::repeat(1).take(case.n as usize + 1));
                    }
                    let strings = Cursor::new(bytes).take_given::<index::CharacterStrings>(2).map_err(fail)?;
                    let e = Cursor::new(data).take_given::<Encoding0>(&strings).map_err(fail)?;
                    Ok(show_mapping(&Encoding::Format0(e)))
                }),
            )
        }
        "font" if case.hole().is_some() => {
            let (hole, size) = case.hole().unwrap();
            let expected = model::with_hole(data, hole, size, || {
                outcome(model::font_set(data, case.m as usize).map(|f| show_model_font_set(case.n, &f)))
            })?;
            (
                expected,
                guarded(|| {
                    let mut tape = Sparse::new(data.clone(), hole as u64, size as u64, case.m as u64);
                    let set = tape.take::<c1::FontSet>().map_err(fail)?;
                    Ok(show_font_set(case.n, &set))
                }),
            )
        }
        "font" => (
            outcome(model::font_set(data, case.m as usize).map(|f| show_model_font_set(case.n, &f))),
            guarded(|| {
                let mut tape = at(case);
                let set = tape.take::<c1::FontSet>().map_err(fail)?;
                Ok(show_font_set(case.n, &set))
            }),
        ),
        "count" => (
            outcome(model::count(data, case.m as usize).map(|n| n.to_string())),
            guarded(|| {
                let mut tape = at(case);
                Ok(c1::FontSet::count(&mut tape).map_err(fail)?.to_string())
            }),
        ),
        "shifted" => {
            // The bytes from `m` on, read alone, and read behind the first `m` bytes.
            let alone = data[case.m as usize..].to_vec();
            (
                guarded(|| {
                    let set = Cursor::new(&alone).take::<c1::FontSet>();
                    let count = c1::FontSet::count(&mut Cursor::new(&alone));
                    Ok(format!("{} {:?}", outcome(set.map(|s| show_font_set(0, &s)).map_err(fail)), count.ok()))
                }),
                guarded(|| {
                    let set = at(case).take::<c1::FontSet>();
                    let count = c1::FontSet::count(&mut at(case));
                    Ok(format!("{} {:?}", outcome(set.map(|s| show_font_set(0, &s)).map_err(fail)), count.ok()))
                }),
            )
        }
        "far" => {
            // Alone, and far behind the start of a long stream.
            let read = |tape: Sparse| {
                guarded(|| {
                    let set = tape.clone().take::<c1::FontSet>();
                    let count = c1::FontSet::count(&mut tape.clone());
                    Ok(format!("{} {:?}", outcome(set.map(|s| show_font_set(0, &s)).map_err(fail)), count.ok()))
                })
            };
            (
                read(Sparse::new(data.clone(), 0, 0, 0)),
                read(Sparse::new(data.clone(), 0, case.n as u64, case.n as u64)),
            )
        }
        // No panic, overflow or endless loop, whatever the result.
        "safe" if case.hole().is_some() => {
            let (hole, size) = case.hole().unwrap();
            // What lies in the hole may be too much to read.
            model::with_hole(data, hole, size, || model::font_set(data, case.m as usize).is_ok())?;
            let result = guarded(|| {
                let _ = Sparse::new(data.clone(), hole as u64, size as u64, case.m as u64).take::<c1::FontSet>();
                Ok("no panic".into())
            });
            ("no panic".into(), result)
        }
        "safe" => {
            let result = guarded(|| {
                let mut tape = at(case);
                let _ = c1::FontSet::count(&mut tape.clone());
                if let Ok(set) = tape.take::<c1::FontSet>() {
                    for id in 0..2000u16 {
                        let id = if id >= 1000 { u16::MAX - (id - 1000) } else { id };
                        let _ = set.strings.get(id);
                        for charset in &set.character_sets {
                            let _ = charset.get(id);
                        }
                        for encoding in &set.encodings {
                            let _ = encoding.get(id);
                        }
                    }
                    for operations in &set.operations {
                        for (code, _, _) in model::OPERATORS {
                            let operator = c1::Operator::from(*code).map_err(fail)?;
                            let _ = operations.get(operator);
                            let _ = operations.get_single(operator);
                            let _ = operations.get_double(operator);
                        }
                    }
                    let _: Result<Vec<String>, _> = set.names.clone().try_into();
                }
                Ok("no panic".into())
            });
            ("no panic".into(), result)
        }
        "safe_part" => {
            let result = guarded(|| {
                let _ = at(case).take::<c1::Index>();
                let _ = at(case).take::<c1::Operations>();
                let _ = at(case).take::<c1::Number>();
                let _ = at(case).take::<c1::Encoding>();
                let _ = at(case).take_given::<c1::CharacterSet>(case.n as usize);
                let _ = at(case).take_given::<c1::character_set::CharacterSet0>(case.n as usize);
                let _ = at(case).take_given::<c1::character_set::CharacterSet1>(case.n as usize);
                let _ = at(case).take_given::<c1::character_set::CharacterSet2>(case.n as usize);
                let _ = at(case).take_given::<c1::Offset>(case.n as u8);
                let _ = at(case).take_given::<index::CharacterStrings>(case.n as i32);
                if let Ok(d) = at(case).take::<index::Dictionaries>() {
                    let _: Result<Vec<c1::Operations>, _> = (&d).try_into();
                }
                if let Ok(names) = at(case).take::<index::Names>() {
                    let _: Result<Vec<String>, _> = names.try_into();
                }
                for number in [c1::Number::Integer(case.n as i32), c1::Number::Real(case.n as f32)] {
                    let _ = c1::StringID::try_from(number);
                }
                Ok("no panic".into())
            });
            ("no panic".into(), result)
        }
        "fault" => {
            // The tape fails once, at its operation `n`; `m` is what is read.
            let total = {
                let mut tape = Faulty::new(data.clone(), usize::MAX, std::io::ErrorKind::Other);
                let _ = catch_unwind(AssertUnwindSafe(|| read_part(case.m % 10, &mut tape)));
                tape.operations
            };
            if case.n as usize >= total {
                return None;
            }
            use std::io::ErrorKind::*;
            let kinds = [Other, PermissionDenied, WouldBlock, InvalidData, TimedOut, NotFound, InvalidInput, BrokenPipe];
            let kind = kinds[(case.m / 10) as usize % kinds.len()];
            (
                "Err".into(),
                guarded(|| {
                    let mut tape = Faulty::new(data.clone(), case.n as usize, kind);
                    read_part(case.m % 10, &mut tape)
                }),
            )
        }
        "partial" => {
            // A tape that hands out one byte at a time and is interrupted at times.
            (
                guarded(|| read_part(case.m, &mut Cursor::new(data.clone()))),
                guarded(|| {
                    let mut tape = Faulty::new(data.clone(), usize::MAX, std::io::ErrorKind::Other);
                    tape.slow = true;
                    read_part(case.m, &mut tape)
                }),
            )
        }
        "program" => (model_program(case)?, guarded(|| run_program(case))),
        "run" => {
            let result = guarded(|| run_program(case));
            let panicked = result.starts_with("panic");
            ("no panic".into(), if panicked { result } else { "no panic".into() })
        }
        "type2_operator" => {
            let code = case.n as u16;
            let extra = match code {
                10 => Some("CallSubr"),
                11 => Some("Return"),
                14 => Some("EndChar"),
                29 => Some("CallGSubr"),
                0x0c03 => Some("And"),
                0x0c04 => Some("Or"),
                0x0c05 => Some("Not"),
                0x0c09 => Some("Abs"),
                0x0c0a => Some("Add"),
                0x0c0b => Some("Sub"),
                0x0c0c => Some("Div"),
                0x0c0e => Some("Neg"),
                0x0c0f => Some("Eq"),
                0x0c12 => Some("Drop"),
                0x0c14 => Some("Put"),
                0x0c15 => Some("Get"),
                0x0c16 => Some("IfElse"),
                0x0c17 => Some("Random"),
                0x0c18 => Some("Mul"),
                0x0c1a => Some("Sqrt"),
                0x0c1b => Some("Dup"),
                0x0c1c => Some("Exch"),
                0x0c1d => Some("Index"),
                0x0c1e => Some("Roll"),
                _ => machine::name(code),
            };
            (
                extra.unwrap_or("Err").to_string(),
                guarded(|| Ok(format!("{:?}", type2::Operator::from(code).map_err(fail)?))),
            )
        }
        kind => panic!("unknown kind {kind}"),
    };
    Some(pair)
}

fn read_part<T: Read>(part: i64, tape: &mut T) -> R<String> {
    Ok(match part {
        0 => show_font_set(0, &tape.take::<c1::FontSet>().map_err(fail)?),
        1 => show_index(&tape.take::<c1::Index>().map_err(fail)?),
        2 => model::show_dict(&dict(&tape.take::<c1::Operations>().map_err(fail)?)),
        3 => model::show_num(num(&tape.take::<c1::Number>().map_err(fail)?)),
        4 => show_charset(&tape.take_given::<c1::CharacterSet>(4).map_err(fail)?),
        5 => show_encoding(&tape.take::<c1::Encoding>().map_err(fail)?),
        6 => c1::FontSet::count(tape).map_err(fail)?.to_string(),
        7 => {
            let strings = Cursor::new([0u8, 2, 1, 1, 1, 1].to_vec()).take_given::<index::CharacterStrings>(2).map_err(fail)?;
            show_mapping(&tape.take_given::<font_set::character_id_keyed::Encoding>(&strings).map_err(fail)?)
        }
        _ => show_index(&tape.take::<index::Names>().map_err(fail)?.0),
    })
}
