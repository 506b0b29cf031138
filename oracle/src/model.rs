//! A reference implementation of the compact font format (TN5176), written from the format's text.
use std::collections::BTreeMap;

use crate::tables;

pub type R<T> = Result<T, ()>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Num {
    Int(i32),
    Real(f32),
}

pub fn show_f32(value: f32) -> String {
    if value.is_nan() {
        "nan".into()
    } else {
        format!("{value:?}")
    }
}

pub fn show_num(n: Num) -> String {
    match n {
        Num::Int(i) => format!("i{i}"),
        Num::Real(f) => format!("r{}", show_f32(f)),
    }
}

pub fn show_nums(list: &[Num]) -> String {
    list.iter().map(|n| show_num(*n)).collect::<Vec<_>>().join(" ")
}

pub fn hex(bytes: &[u8]) -> String {
    bytes.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn show_objects(objects: &[Vec<u8>]) -> String {
    format!("[{}]", objects.iter().map(|o| hex(o)).collect::<Vec<_>>().join(","))
}

pub struct Reader<'d> {
    pub data: &'d [u8],
    pub at: usize,
}

use std::cell::Cell;
thread_local! {
    /// Where the data lies in memory, and the place and size of a hole in it.
    static HOLE: Cell<(usize, usize, usize)> = Cell::new((0, 0, 0));
    static TOUCHED: Cell<bool> = Cell::new(false);
}

/// Read data with a hole in it, unless something within the hole is to be read.
pub fn with_hole<T, F: FnOnce() -> T>(data: &[u8], at: usize, size: usize, body: F) -> Option<T> {
    HOLE.set((data.as_ptr() as usize, at, size));
    TOUCHED.set(false);
    let result = body();
    HOLE.set((0, 0, 0));
    (!TOUCHED.get()).then_some(result)
}

impl<'d> Reader<'d> {
    pub fn new(data: &'d [u8], at: usize) -> Self {
        Reader { data, at }
    }
    pub fn bytes(&mut self, count: usize) -> R<&'d [u8]> {
        // No bytes may be read anywhere.
        if count == 0 {
            return Ok(&[]);
        }
        let end = self.at.checked_add(count).ok_or(())?;
        let (whole, at, size) = HOLE.get();
        let back = if size == 0 || whole != self.data.as_ptr() as usize || end <= at {
            0
        } else if self.at >= at + size {
            size
        } else {
            TOUCHED.set(true);
            return Err(());
        };
        if end - back > self.data.len() {
            return Err(());
        }
        let result = &self.data[self.at - back..end - back];
        self.at = end;
        Ok(result)
    }
    pub fn big(&mut self, count: usize) -> R<u64> {
        Ok(self.bytes(count)?.iter().fold(0, |sum, b| sum * 256 + *b as u64))
    }
}

#[derive(Clone, Debug)]
pub struct Idx {
    pub size: u8,
    pub offsets: Vec<u32>,
    pub objects: Vec<Vec<u8>>,
}

pub fn index(r: &mut Reader) -> R<Idx> {
    let count = r.big(2)? as usize;
    if count == 0 {
        return Ok(Idx { size: 0, offsets: vec![], objects: vec![] });
    }
    let size = r.big(1)? as u8;
    if size < 1 || size > 4 {
        return Err(());
    }
    let mut offsets = vec![];
    for _ in 0..=count {
        offsets.push(r.big(size as usize)? as u32);
    }
    if offsets[0] != 1 {
        return Err(());
    }
    let start = r.at;
    let mut objects = vec![];
    for pair in offsets.windows(2) {
        if pair[0] > pair[1] {
            return Err(());
        }
        r.at = start + pair[0] as usize - 1;
        objects.push(r.bytes((pair[1] - pair[0]) as usize)?.to_vec());
    }
    r.at = start + offsets[count] as usize - 1;
    Ok(Idx { size, offsets, objects })
}

pub fn number(r: &mut Reader) -> R<Num> {
    let b0 = r.big(1)? as i64;
    Ok(match b0 {
        32..=246 => Num::Int((b0 - 139) as i32),
        247..=250 => Num::Int(((b0 - 247) * 256 + r.big(1)? as i64 + 108) as i32),
        251..=254 => Num::Int((-(b0 - 251) * 256 - r.big(1)? as i64 - 108) as i32),
        28 => Num::Int(r.big(2)? as u16 as i16 as i32),
        29 => Num::Int(r.big(4)? as u32 as i32),
        30 => {
            let mut text = String::new();
            'bytes: loop {
                let byte = r.big(1)?;
                for nibble in [byte / 16, byte % 16] {
                    match nibble {
                        0..=9 => text += &nibble.to_string(),
                        10 => text += ".",
                        11 => text += "E",
                        12 => text += "E-",
                        14 => text += "-",
                        15 => break 'bytes,
                        _ => return Err(()),
                    }
                }
            }
            Num::Real(text.parse::<f32>().map_err(|_| ())?)
        }
        _ => return Err(()),
    })
}

pub const OPERATORS: &[(u16, &str, &[Num])] = {
    use Num::*;
    &[
        (0, "Version", &[]),
        (1, "Notice", &[]),
        (2, "FullName", &[]),
        (3, "FamilyName", &[]),
        (4, "Weight", &[]),
        (5, "FontBBox", &[Int(0), Int(0), Int(0), Int(0)]),
        (6, "BlueValues", &[]),
        (7, "OtherBlues", &[]),
        (8, "FamilyBlues", &[]),
        (9, "FamilyOtherBlues", &[]),
        (10, "StdHW", &[]),
        (11, "StdVW", &[]),
        (13, "UniqueID", &[]),
        (14, "XUID", &[]),
        (15, "CharSet", &[Int(0)]),
        (16, "Encoding", &[Int(0)]),
        (17, "CharStrings", &[]),
        (18, "Private", &[]),
        (19, "Subrs", &[]),
        (20, "DefaultWidthX", &[Int(0)]),
        (21, "NominalWidthX", &[Int(0)]),
        (0x0c00, "Copyright", &[]),
        (0x0c01, "IsFixedPitch", &[Int(0)]),
        (0x0c02, "ItalicAngle", &[Int(0)]),
        (0x0c03, "UnderlinePosition", &[Int(-100)]),
        (0x0c04, "UnderlineThickness", &[Int(50)]),
        (0x0c05, "PaintType", &[Int(0)]),
        (0x0c06, "CharStringType", &[Int(2)]),
        (
            0x0c07,
            "FontMatrix",
            &[Real(0.001), Real(0.0), Real(0.0), Real(0.001), Real(0.0), Real(0.0)],
        ),
        (0x0c08, "StrokeWidth", &[Int(0)]),
        (0x0c09, "BlueScale", &[Real(0.039625)]),
        (0x0c0a, "BlueShift", &[Int(7)]),
        (0x0c0b, "BlueFuzz", &[Int(1)]),
        (0x0c0c, "StemSnapH", &[]),
        (0x0c0d, "StemSnapV", &[]),
        (0x0c0e, "ForceBold", &[Int(0)]),
        (0x0c11, "LanguageGroup", &[Int(0)]),
        (0x0c12, "ExpansionFactor", &[Real(0.06)]),
        (0x0c13, "InitialRandomSeed", &[Int(0)]),
        (0x0c14, "SyntheticBase", &[]),
        (0x0c15, "PostScript", &[]),
        (0x0c16, "BaseFontName", &[]),
        (0x0c17, "BaseFontBlend", &[]),
        (0x0c1e, "ROS", &[]),
        (0x0c1f, "CIDFontVersion", &[Int(0)]),
        (0x0c20, "CIDFontRevision", &[Int(0)]),
        (0x0c21, "CIDFontType", &[Int(0)]),
        (0x0c22, "CIDCount", &[Int(8720)]),
        (0x0c23, "UIDBase", &[]),
        (0x0c24, "FDArray", &[]),
        (0x0c25, "FDSelect", &[]),
        (0x0c26, "FontName", &[]),
    ]
};

pub fn name_of(code: u16) -> Option<&'static str> {
    OPERATORS.iter().find(|o| o.0 == code).map(|o| o.1)
}

pub type Dict = BTreeMap<String, Vec<Num>>;

pub fn dictionary(data: &[u8]) -> R<Dict> {
    let mut dict = Dict::new();
    let mut operands = vec![];
    let mut r = Reader::new(data, 0);
    loop {
        if r.at >= data.len() {
            return Ok(dict);
        }
        let b0 = data[r.at];
        match b0 {
            28..=30 | 32..=254 => {
                // An operand cut off by the end of the data.
                if ends_early(&data[r.at..]) {
                    return Ok(dict);
                }
                operands.push(number(&mut r)?);
            }
            12 => {
                if r.at + 1 >= data.len() {
                    return Ok(dict);
                }
                let name = name_of(0x0c00 + data[r.at + 1] as u16).ok_or(())?;
                r.at += 2;
                dict.insert(name.into(), std::mem::take(&mut operands));
            }
            _ => {
                let name = name_of(b0 as u16).ok_or(())?;
                r.at += 1;
                dict.insert(name.into(), std::mem::take(&mut operands));
            }
        }
    }
}

fn ends_early(data: &[u8]) -> bool {
    match data[0] {
        247..=254 => data.len() < 2,
        28 => data.len() < 3,
        29 => data.len() < 5,
        30 => {
            for byte in &data[1..] {
                for nibble in [byte >> 4, byte & 15] {
                    if nibble == 13 || nibble == 15 {
                        return false;
                    }
                }
            }
            true
        }
        _ => false,
    }
}

pub fn show_dict(dict: &Dict) -> String {
    let list: Vec<_> = dict.iter().map(|(k, v)| format!("{k}:{}", show_nums(v))).collect();
    format!("{{{}}}", list.join(";"))
}

pub fn get<'d>(dict: &'d Dict, name: &str) -> Option<&'d [Num]> {
    match dict.get(name) {
        Some(list) => Some(list),
        None => {
            let defaults = OPERATORS.iter().find(|o| o.1 == name).unwrap().2;
            (!defaults.is_empty()).then_some(defaults)
        }
    }
}

/// A single operand that has to be an integer that is not negative.
fn natural(dict: &Dict, name: &str) -> R<usize> {
    match get(dict, name).and_then(|l| l.first()) {
        Some(Num::Int(value)) if *value >= 0 => Ok(*value as usize),
        _ => Err(()),
    }
}

/// The identifiers of a character set for a number of glyphs, and the end.
pub fn charset(r: &mut Reader, glyphs: usize) -> R<String> {
    let format = r.big(1)?;
    match format {
        0 => {
            if glyphs == 0 {
                return Err(());
            }
            let mut ids = vec![];
            for _ in 1..glyphs {
                ids.push(r.big(2)?.to_string());
            }
            Ok(format!("0:{}", ids.join(",")))
        }
        1 | 2 => {
            let mut ranges = vec![];
            let mut covered: u64 = 1;
            while covered < glyphs as u64 {
                let first = r.big(2)?;
                let left = r.big(format as usize)?;
                covered += left + 1;
                ranges.push(format!("{first}+{left}"));
            }
            if covered != glyphs as u64 {
                return Err(());
            }
            Ok(format!("{format}:{}", ranges.join(",")))
        }
        _ => Err(()),
    }
}

pub fn encoding(r: &mut Reader) -> R<String> {
    let format = r.big(1)?;
    let mut list = vec![];
    match format {
        0 | 1 => {
            let count = r.big(1)?;
            for _ in 0..count {
                if format == 0 {
                    list.push(r.big(1)?.to_string());
                } else {
                    list.push(format!("{}+{}", r.big(1)?, r.big(1)?));
                }
            }
            Ok(format!("{format}:{count}:{}", list.join(",")))
        }
        // The layout that the code reads; see the known findings.
        _ if format & 0x80 != 0 => {
            let count = r.big(1)?;
            for _ in 0..count {
                list.push(format!("{}={}", r.big(1)?, r.big(2)?));
            }
            Ok(format!("s{format}:{count}:{}", list.join(",")))
        }
        _ => Err(()),
    }
}

/// The glyph-to-dictionary mapping of a font keyed by character identifiers.
pub fn mapping(r: &mut Reader, glyphs: usize) -> R<String> {
    match r.big(1)? {
        0 => Ok(format!("0:{}", hex(r.bytes(glyphs)?))),
        3 => {
            let count = r.big(2)?;
            let mut list = vec![];
            for _ in 0..count {
                list.push(format!("{}>{}", r.big(2)?, r.big(1)?));
            }
            Ok(format!("3:{count}:{}:{}", list.join(","), r.big(2)?))
        }
        _ => Err(()),
    }
}

pub fn string_id(n: Num) -> R<u16> {
    match n {
        Num::Int(value) if (0..=65535).contains(&value) => Ok(value as u16),
        _ => Err(()),
    }
}

pub fn string(strings: &[Vec<u8>], id: u16) -> Option<String> {
    match tables::STANDARD_STRINGS.get(id as usize) {
        Some(text) => Some(text.to_string()),
        None => strings.get(id as usize - 391).map(|bytes| text(bytes)),
    }
}

/// Text with each maximal invalid sequence replaced (Unicode, "maximal subpart").
pub fn text(bytes: &[u8]) -> String {
    let mut result = String::new();
    let mut rest = bytes;
    loop {
        match std::str::from_utf8(rest) {
            Ok(valid) => return result + valid,
            Err(error) => {
                let (valid, after) = rest.split_at(error.valid_up_to());
                result += std::str::from_utf8(valid).unwrap();
                result.push('\u{fffd}');
                match error.error_len() {
                    Some(length) => rest = &after[length..],
                    None => return result,
                }
            }
        }
    }
}

pub fn member(set: u8, id: u16) -> Option<&'static str> {
    let members: &[u16] = match set {
        0 => &tables::ISO_ADOBE,
        1 => &tables::EXPERT,
        _ => &tables::EXPERT_SUBSET,
    };
    (id != 0 && members.contains(&id)).then(|| tables::STANDARD_STRINGS[id as usize])
}

pub fn code(expert: bool, code: u16) -> Option<u16> {
    let table = if expert { &tables::EXPERT_ENCODING } else { &tables::STANDARD_ENCODING };
    table.get(code as usize).copied()
}

#[derive(Clone, Debug)]
pub struct Private {
    pub dict: Dict,
    pub subrs: Idx,
}

fn private(data: &[u8], base: usize, dict: &Dict) -> R<Private> {
    let (size, offset) = match get(dict, "Private") {
        Some([Num::Int(size), Num::Int(offset), ..]) if *size >= 0 && *offset >= 0 => (*size as usize, *offset),
        _ => return Err(()),
    };
    let chunk = Reader::new(data, base + offset as usize).bytes(size)?;
    let private = dictionary(chunk)?;
    let subrs = match get(&private, "Subrs").and_then(|l| l.first()) {
        Some(Num::Int(more)) => {
            let sum = offset as i64 + *more as i64;
            if sum < 0 || sum > i32::MAX as i64 {
                return Err(());
            }
            index(&mut Reader::new(data, base + sum as usize))?
        }
        Some(_) => return Err(()),
        None => Idx { size: 0, offsets: vec![], objects: vec![] },
    };
    Ok(Private { dict: private, subrs })
}

pub struct Font {
    pub dict: Dict,
    pub charstrings: Idx,
    pub charset: String,
    pub encoding: String,
    pub cid: Option<Cid>,
    pub private: Vec<Private>,
}

pub struct Cid {
    pub registry: u16,
    pub ordering: u16,
    pub supplement: Num,
    pub mapping: String,
    pub dicts: Vec<Dict>,
}

pub struct FontSet {
    pub header: [u8; 4],
    pub names: Idx,
    pub strings: Idx,
    pub subrs: Idx,
    pub fonts: Vec<Font>,
}

pub fn dictionaries(index: &Idx) -> R<Vec<Dict>> {
    index.objects.iter().map(|o| dictionary(o)).collect()
}

pub fn font_set(data: &[u8], base: usize) -> R<FontSet> {
    let mut r = Reader::new(data, base);
    let header: [u8; 4] = r.bytes(4)?.try_into().unwrap();
    r.at = base + header[2] as usize;
    let names = index(&mut r)?;
    let tops = dictionaries(&index(&mut r)?)?;
    let strings = index(&mut r)?;
    let subrs = index(&mut r)?;
    let mut fonts = vec![];
    for dict in tops {
        if natural(&dict, "CharStringType")? != 2 {
            return Err(());
        }
        let charstrings = index(&mut Reader::new(data, base + natural(&dict, "CharStrings")?))?;
        let glyphs = charstrings.objects.len();
        let charset = match natural(&dict, "CharSet")? {
            0 => "ISOAdobe".into(),
            1 => "Expert".into(),
            2 => "ExpertSubset".into(),
            offset => charset(&mut Reader::new(data, base + offset), glyphs)?,
        };
        let encoding = match natural(&dict, "Encoding")? {
            0 => "Standard".into(),
            1 => "Expert".into(),
            offset => encoding(&mut Reader::new(data, base + offset))?,
        };
        let (cid, private) = match dict.get("ROS") {
            Some(ros) => {
                let [registry, ordering, supplement] = ros[..] else { return Err(()) };
                let mapping = mapping(&mut Reader::new(data, base + natural(&dict, "FDSelect")?), glyphs)?;
                let array = index(&mut Reader::new(data, base + natural(&dict, "FDArray")?))?;
                let dicts = dictionaries(&array)?;
                let privates = dicts.iter().map(|d| private(data, base, d)).collect::<R<Vec<_>>>()?;
                let (registry, ordering) = (string_id(registry)?, string_id(ordering)?);
                (Some(Cid { registry, ordering, supplement, mapping, dicts }), privates)
            }
            None => (None, vec![private(data, base, &dict)?]),
        };
        fonts.push(Font { dict, charstrings, charset, encoding, cid, private });
    }
    Ok(FontSet { header, names, strings, subrs, fonts })
}

pub fn count(data: &[u8], base: usize) -> R<usize> {
    let mut r = Reader::new(data, base);
    let size = r.bytes(4)?[2] as usize;
    Ok(Reader::new(data, base + size).big(2)? as usize)
}
