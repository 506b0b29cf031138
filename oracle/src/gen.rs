//! The inputs for each property: first an enumeration, and then random ones.
use crate::cases::Case;
use crate::model;

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, from: usize, to: usize) -> usize {
        from + self.below(to - from + 1)
    }
    pub fn chance(&mut self, one_in: usize) -> bool {
        self.below(one_in) == 0
    }
    pub fn pick<'a, T>(&mut self, list: &'a [T]) -> &'a T {
        &list[self.below(list.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    /// A byte, with those at boundaries more often.
    pub fn byte(&mut self) -> u8 {
        if self.chance(3) {
            *self.pick(&[0, 1, 2, 3, 4, 12, 28, 29, 30, 31, 32, 127, 128, 139, 246, 247, 250, 251, 254, 255])
        } else {
            self.next() as u8
        }
    }
}

fn be(value: u64, size: usize) -> Vec<u8> {
    value.to_be_bytes()[8 - size..].to_vec()
}

// ---------------------------------------------------------------- indices

pub fn index_of(objects: &[Vec<u8>], size: usize) -> Vec<u8> {
    let mut out = be(objects.len() as u64, 2);
    if objects.is_empty() {
        return out;
    }
    out.push(size as u8);
    let mut at = 1;
    out.extend(be(at, size));
    for object in objects {
        at += object.len() as u64;
        out.extend(be(at, size));
    }
    out.extend(objects.concat());
    out
}

fn size_for(rng: &mut Rng, objects: &[Vec<u8>]) -> usize {
    let total: usize = objects.iter().map(|o| o.len()).sum::<usize>() + 1;
    let least = if total < 256 { 1 } else if total < 65536 { 2 } else { 3 };
    rng.range(least, 4)
}

fn raw_index(count: u64, size: u8, offsets: &[u64], data: &[u8]) -> Vec<u8> {
    let mut out = be(count, 2);
    out.push(size);
    for offset in offsets {
        out.extend(be(*offset, (size as usize).clamp(1, 8)));
    }
    out.extend(data);
    out
}

fn random_index(rng: &mut Rng) -> Vec<u8> {
    let count = match rng.below(20) {
        0 => 0,
        1 => rng.range(255, 300),
        _ => rng.range(1, 6),
    };
    let mut objects = vec![];
    for _ in 0..count {
        let n = if rng.chance(40) { rng.range(250, 520) } else { rng.below(5) };
        objects.push(rng.bytes(n));
    }
    let size = size_for(rng, &objects);
    let mut data = index_of(&objects, size);
    match rng.below(8) {
        0 if !objects.is_empty() => {
            // One offset is changed.
            let at = 3 + rng.below(objects.len() + 1) * size + size - 1;
            data[at] = if rng.chance(2) { data[at].wrapping_add(1) } else { data[at].wrapping_sub(1) };
        }
        1 => {
            let n = data.len();
            data.truncate(n - rng.range(1, 3).min(n));
        }
        2 if data.len() > 2 => data[2] = rng.below(7) as u8,
        3 => {
            let at = rng.below(data.len());
            data[at] = rng.byte();
        }
        4 => data.extend(rng.bytes(3)),
        _ => {}
    }
    data
}

fn index_cases() -> Vec<Case> {
    let mut list = vec![];
    for n in 0..=8 {
        for size in 0..=5u8 {
            for offsets in [
                vec![1, 1], vec![1, 2], vec![1, 3], vec![0, 1], vec![2, 3], vec![2, 1], vec![1, 0], vec![1, 4],
                vec![0, 0], vec![257, 258], vec![1, 257], vec![1, 65537], vec![1, 1 << 31],
            ] {
                list.push(Case::new("index", 0, 0, raw_index(1, size, &offsets, &vec![7; n])));
            }
            for offsets in [vec![1, 2, 3], vec![1, 3, 2], vec![1, 1, 1], vec![1, 2, 2], vec![1, 4, 1], vec![2, 3, 4]] {
                list.push(Case::new("index", 0, 0, raw_index(2, size, &offsets, &[8, 9, 10][..n.min(3)])));
            }
        }
    }
    for data in [vec![], vec![0], vec![0, 0], vec![0, 0, 9], vec![0, 1], vec![0, 1, 1], vec![0, 1, 0]] {
        for n in [0, 1, 2, 3, 4, 102] {
            list.push(Case::new("index", n, 0, data.clone()));
        }
    }
    let plain = index_of(&[vec![1, 2], vec![], vec![3]], 2);
    for n in [0, 1, 2, 3, 4, 100, 101, 102, 103, 99, 0x7fffffff] {
        list.push(Case::new("index", n, 0, plain.clone()));
        for cut in 0..plain.len() {
            list.push(Case::new("index", n, 0, plain[..cut].to_vec()));
        }
    }
    for n in 0..=9 {
        for length in 0..=5 {
            list.push(Case::new("offset", n, 0, vec![0x81, 0x02, 0xf3, 0x04, 5][..length].to_vec()));
        }
    }
    for n in [10, 127, 128, 255] {
        list.push(Case::new("offset", n, 0, vec![1; 300]));
    }
    for count in [255usize, 256, 257, 1000, 65535] {
        let objects: Vec<Vec<u8>> = (0..count).map(|i| vec![i as u8; (i % 3 == 0) as usize]).collect();
        for size in [2, 3, 4] {
            if count < 65535 || size == 3 {
                list.push(Case::new("index", 0, 0, index_of(&objects, size)));
            }
        }
    }
    // Objects too long for one and two bytes.
    for n in [254usize, 255, 256, 65534, 65535, 65536, 70000] {
        for size in 1..=4usize {
            if size > 2 || (n as u64 + 1) >> (8 * size) == 0 {
                list.push(Case::new("index", 0, 0, index_of(&[vec![5; n]], size)));
            }
        }
    }
    list
}

fn random_index_case(rng: &mut Rng) -> Case {
    let data = random_index(rng);
    let kind = *rng.pick(&[0, 0, 0, 1, 2, 3, 4, 102]);
    let at = if rng.chance(3) { rng.range(1, 5) } else { 0 };
    let mut all = rng.bytes(at);
    all.extend(data);
    Case::new("index", kind, at as i64, all)
}

// ---------------------------------------------------------------- numbers and dictionaries

pub fn int5(value: i32) -> Vec<u8> {
    let mut out = vec![29];
    out.extend(value.to_be_bytes());
    out
}

/// The shortest encoding of an integer.
pub fn int(value: i32) -> Vec<u8> {
    match value {
        -107..=107 => vec![(value + 139) as u8],
        108..=1131 => vec![((value - 108) / 256 + 247) as u8, ((value - 108) % 256) as u8],
        -1131..=-108 => vec![((-value - 108) / 256 + 251) as u8, ((-value - 108) % 256) as u8],
        -32768..=32767 => vec![28, (value >> 8) as u8, value as u8],
        _ => int5(value),
    }
}

fn real(nibbles: &[u8]) -> Vec<u8> {
    let mut all = nibbles.to_vec();
    all.push(15);
    if all.len() % 2 == 1 {
        all.push(15);
    }
    let mut out = vec![30];
    out.extend(all.chunks(2).map(|c| c[0] << 4 | c[1]));
    out
}

fn random_real(rng: &mut Rng) -> Vec<u8> {
    let mut nibbles = vec![];
    if rng.chance(4) {
        // Any nibbles.
        for _ in 0..rng.below(8) {
            nibbles.push(rng.below(15) as u8);
        }
    } else {
        if rng.chance(3) {
            nibbles.push(14);
        }
        for _ in 0..rng.below(5) {
            nibbles.push(rng.below(10) as u8);
        }
        if rng.chance(2) {
            nibbles.push(10);
            for _ in 0..rng.below(8) {
                nibbles.push(rng.below(10) as u8);
            }
        }
        if rng.chance(2) {
            nibbles.push(rng.range(11, 12) as u8);
            for _ in 0..rng.below(3) {
                nibbles.push(rng.below(10) as u8);
            }
        }
    }
    real(&nibbles)
}

fn number_cases() -> Vec<Case> {
    let mut list = vec![];
    for first in 0..=255u8 {
        for rest in [
            vec![], vec![0], vec![255], vec![1, 2], vec![0x80, 0], vec![0x7f, 0xff, 1, 2], vec![0x80, 0, 0, 0],
            vec![0xff, 0xff, 0xff, 0xff, 7], vec![0xff], vec![0x1f], vec![0x12, 0x3f, 1], vec![0, 0, 0],
        ] {
            let mut data = vec![first];
            data.extend(rest);
            list.push(Case::new("number", 0, 0, data));
        }
    }
    for first in 247..=254u8 {
        for second in 0..=255u8 {
            list.push(Case::new("number", 0, 0, vec![first, second, 9]));
        }
    }
    for high in 0..=255u8 {
        for low in [0, 1, 127, 128, 255] {
            list.push(Case::new("number", 0, 0, vec![28, high, low, 9]));
            list.push(Case::new("number", 0, 0, vec![29, high, low, low, high, 9]));
            list.push(Case::new("number", 0, 0, vec![29, low, high, 0, high, 9]));
        }
    }
    list.push(Case::new("number", 0, 0, vec![]));
    for a in 0..=255u8 {
        list.push(Case::new("number", 0, 0, vec![30, a, 0xff]));
        list.push(Case::new("number", 0, 0, vec![30, a, 0x5f]));
        list.push(Case::new("number", 0, 0, vec![30, 0x12, a, 0x3f]));
        list.push(Case::new("number", 0, 0, vec![30, 0x1b, a, 0xff]));
        list.push(Case::new("number", 0, 0, vec![30, 0x2c, a, 0xff]));
        list.push(Case::new("number", 0, 0, vec![30, 0xe1, 0xa2, a, 0xff]));
        list.push(Case::new("number", 0, 0, vec![30, a]));
    }
    // Long reals.
    for n in [7usize, 8, 9, 15, 16, 17, 31, 32, 40, 63, 64, 65, 100, 255, 256, 300] {
        for start in [vec![], vec![14], vec![10], vec![0, 10], vec![14, 10]] {
            let mut nibbles = start;
            nibbles.extend((0..n).map(|i| (i % 10) as u8));
            list.push(Case::new("number", 0, 0, real(&nibbles)));
            nibbles.extend([12, 3, 9]);
            list.push(Case::new("number", 0, 0, real(&nibbles)));
        }
    }
    for bits in [0i64, 1, -1, 0x3f800000, 0x7f800000, 0x7fc00000, 0x80000000, 0x40490fdb, 0x7fffffff] {
        list.push(Case::new("number_from", bits as i32 as i64, 0, vec![]));
        list.push(Case::new("number_from", bits as u32 as i64, 1, vec![]));
    }
    list
}

fn random_number(rng: &mut Rng) -> Vec<u8> {
    match rng.below(8) {
        0 | 1 => vec![rng.range(32, 246) as u8],
        2 => vec![rng.range(247, 250) as u8, rng.byte()],
        3 => vec![rng.range(251, 254) as u8, rng.byte()],
        4 => vec![28, rng.byte(), rng.byte()],
        5 => vec![29, rng.byte(), rng.byte(), rng.byte(), rng.byte()],
        _ => random_real(rng),
    }
}

fn operator(code: u16) -> Vec<u8> {
    if code >= 0x0c00 {
        vec![12, code as u8]
    } else {
        vec![code as u8]
    }
}

fn entry(code: u16, operands: &[i32]) -> Vec<u8> {
    let mut out: Vec<u8> = operands.iter().flat_map(|v| int(*v)).collect();
    out.extend(operator(code));
    out
}

fn random_dictionary(rng: &mut Rng) -> Vec<u8> {
    let mut data = vec![];
    for _ in 0..rng.below(6) {
        for _ in 0..rng.below(5) {
            if rng.chance(4) {
                // A real that is a number.
                data.extend(real(&[rng.below(10) as u8, 10, rng.below(10) as u8]));
            } else if rng.chance(3) {
                data.extend(int5(rng.next() as i32));
            } else {
                data.extend(int(rng.below(4000) as i32 - 2000));
            }
        }
        let (code, _, _) = *rng.pick(model::OPERATORS);
        data.extend(operator(code));
    }
    match rng.below(10) {
        0 => data.extend(random_number(rng)),
        1 if !data.is_empty() => {
            let n = data.len();
            data.truncate(n - 1);
        }
        2 => {
            let byte = rng.byte();
            data.push(byte);
        }
        3 => data.extend([12, rng.byte()]),
        _ => {}
    }
    data
}

fn dictionary_cases() -> Vec<Case> {
    let mut list = vec![];
    let mut every = vec![];
    for (i, (code, _, _)) in model::OPERATORS.iter().enumerate() {
        let i = i as i32;
        for data in [
            entry(*code, &[]), entry(*code, &[i]), entry(*code, &[1, 2, i]),
            [entry(*code, &[1]), entry(*code, &[2, 3])].concat(),
            [entry(*code, &[1, 4]), entry(17, &[5]), entry(*code, &[])].concat(),
            [entry(*code, &[1]), vec![140, 141]].concat(),
            [vec![140], entry(*code, &[]), vec![28, 1]].concat(),
        ] {
            list.push(Case::new("dictionary", 0, 0, data));
        }
        every.extend(entry(*code, &[i, -i]));
    }
    list.push(Case::new("dictionary", 0, 0, every));
    for code in 0..=255 {
        for data in [vec![code], vec![140, code], vec![140, code, 140], vec![140, 12, code], vec![140, 12, code, 141, 17]] {
            list.push(Case::new("dictionary", 0, 0, data));
        }
        for n in [code as i64, 0x0c00 + code as i64, 0x0d00 + code as i64, 0x0b00 + code as i64, code as i64 * 256] {
            list.push(Case::new("operator", n, 0, vec![]));
        }
    }
    // More operands than the format allows, and many operators.
    for n in [47, 48, 49, 100, 255, 256, 257, 513, 600, 65535, 65536, 65537] {
        let operands: Vec<i32> = (0..n).map(|i| i % 107).collect();
        list.push(Case::new("dictionary", 0, 0, entry(14, &operands)));
    }
    list
}

fn lookup_cases() -> Vec<Case> {
    let mut list = vec![];
    for (i, (code, _, _)) in model::OPERATORS.iter().enumerate() {
        for data in [vec![], entry(*code, &[]), entry(*code, &[7]), entry(*code, &[8, 9]), entry(*code, &[8, 9, 10]),
            entry(if *code == 17 { 18 } else { 17 }, &[1, 2]),
            [random_real(&mut Rng::new(3)), operator(*code)].concat(),
        ] {
            list.push(Case::new("lookup", i as i64, 0, data));
        }
    }
    list
}

// ---------------------------------------------------------------- character sets and encodings

fn charset_of(format: u8, glyphs: usize, rng: &mut Rng) -> Vec<u8> {
    let mut out = vec![format];
    let mut left = glyphs as i64 - 1;
    while left > 0 {
        let first = rng.next() as u16;
        out.extend(first.to_be_bytes());
        match format {
            0 => left -= 1,
            1 => {
                let n = rng.below((left as usize).min(256)) as u8;
                out.push(n);
                left -= n as i64 + 1;
            }
            _ => {
                let n = rng.below((left as usize).min(65536)) as u16;
                out.extend(n.to_be_bytes());
                left -= n as i64 + 1;
            }
        }
    }
    out
}

fn charset_cases() -> Vec<Case> {
    let mut list = vec![];
    let mut rng = Rng::new(11);
    for glyphs in (0..=9usize).chain([100, 255, 256, 257, 258, 511, 512, 513, 514, 65535, 65536, 65537, 70000]) {
        for format in 0..=4u8 {
            for _ in 0..(if glyphs < 10 { 4 } else { 1 }) {
                let data = charset_of(format.min(2), glyphs, &mut rng);
                let mut data = data;
                data[0] = format;
                list.push(Case::new("charset_part", glyphs as i64, format as i64, data.clone()));
                for other in 0..3u8 {
                    let mut data = charset_of(other, glyphs, &mut rng);
                    data[0] = format;
                    list.push(Case::new("charset_part", glyphs as i64, other as i64, data));
                }
                list.push(Case::new("charset", glyphs as i64, 0, data.clone()));
                list.push(Case::new("charset", glyphs as i64 + 1, 0, data.clone()));
                if glyphs > 0 {
                    list.push(Case::new("charset", glyphs as i64 - 1, 0, data.clone()));
                }
                data.push(3);
                list.push(Case::new("charset", glyphs as i64, 0, data.clone()));
                data.truncate(data.len() - 2);
                list.push(Case::new("charset", glyphs as i64, 0, data));
            }
        }
    }
    for format in [0u8, 1, 2] {
        for glyphs in 0..12 {
            for left in 0..12u8 {
                let mut range = vec![0, 9];
                range.extend(be(left as u64, format.max(1) as usize));
                let mut data = vec![format];
                for _ in 0..3 {
                    data.extend(&range);
                }
                list.push(Case::new("charset", glyphs, 0, data));
            }
        }
    }
    // Ranges of the greatest lengths.
    for (data, n) in [
        (vec![1, 0, 1, 255], 257), (vec![1, 0, 1, 255], 256), (vec![1, 0, 1, 255, 0, 1, 0], 258),
        (vec![2, 0, 1, 255, 255], 65537), (vec![2, 0, 1, 255, 255], 65536), (vec![2, 0, 1, 255, 255, 0, 1, 0, 0], 65538),
        (vec![2, 0, 1, 1, 0], 258), (vec![2, 0, 1, 0, 255], 257), (vec![2, 0, 1, 255, 255], 1),
        (vec![2, 255, 255, 0, 255], 257), (vec![1, 255, 255, 7], 9),
    ] {
        for d in -1..=1 {
            list.push(Case::new("charset", n + d, 0, data.clone()));
        }
    }
    for format in 0..=255u8 {
        list.push(Case::new("charset", 2, 0, vec![format, 0, 5, 0, 0]));
    }
    for glyphs in [0, 1, 2, 3] {
        for data in [vec![], vec![0], vec![1], vec![2], vec![3], vec![0, 0], vec![1, 0], vec![0, 1, 2, 3, 4]] {
            list.push(Case::new("charset", glyphs, 0, data));
        }
    }
    list
}

fn random_charset_case(rng: &mut Rng) -> Case {
    let glyphs = if rng.chance(10) { rng.range(250, 700) } else { rng.range(1, 12) };
    let format = rng.below(3) as u8;
    let mut data = charset_of(format, glyphs, rng);
    let at = if rng.chance(4) { rng.range(1, 3) } else { 0 };
    data.splice(0..0, rng.bytes(at));
    match rng.below(6) {
        0 => {
            let i = rng.below(data.len());
            data[i] = rng.byte();
        }
        1 => {
            let n = data.len();
            data.truncate(n - 1);
        }
        2 => data.extend(rng.bytes(4)),
        _ => {}
    }
    let off = *rng.pick(&[0, 0, 0, 1, -1]);
    Case::new("charset", glyphs as i64 + off, at as i64, data)
}

fn member_cases() -> Vec<Case> {
    let mut list = vec![];
    for id in (0..=400).chain([500, 1000, 32767, 32768, 65534, 65535]) {
        for set in 0..3 {
            list.push(Case::new("member", id, set, vec![]));
        }
    }
    for data in [vec![0, 0, 1, 0, 2], vec![1, 0, 1, 1], vec![2, 0, 1, 0, 1]] {
        for id in 0..400 {
            list.push(Case::new("member", id, 3, data.clone()));
        }
    }
    // Character sets given by data.
    list.extend(charset_cases().into_iter().filter(|case| case.kind == "charset" && case.m == 0).map(|mut case| {
        case.kind = "members".into();
        case
    }));
    for id in 401..=65535 {
        for set in 0..3 {
            list.push(Case::new("member", id, set, vec![]));
        }
    }
    list
}

fn encoding_cases() -> Vec<Case> {
    let mut list = vec![];
    for code in (0..=300).chain([511, 512, 513, 32768, 65535]) {
        for n in 0..2 {
            list.push(Case::new("encoding_get", code, n, vec![]));
        }
    }
    for data in [vec![0, 2, 5, 6], vec![1, 1, 5, 6], vec![0x80, 1, 5, 1, 2], vec![0x81, 0]] {
        for code in 0..256 {
            list.push(Case::new("encoding_get", code, 2, data.clone()));
        }
    }
    let tail: Vec<u8> = (0..=255u8).chain(0..=255).chain(0..=255).collect();
    for format in 0..=255u8 {
        for count in [0u8, 1, 2, 3, 127, 128, 255] {
            let mut data = vec![format, count];
            data.extend(&tail);
            list.push(Case::new("encoding", 0, 0, data.clone()));
            for cut in 0..6 {
                list.push(Case::new("encoding", 0, 0, data[..cut].to_vec()));
            }
            for item in [1, 2, 3] {
                let total = 2 + item * count as usize;
                list.push(Case::new("encoding", 0, 0, data[..total].to_vec()));
                list.push(Case::new("encoding", 0, 0, data[..total - 1].to_vec()));
            }
        }
    }
    for code in 0..=65535 {
        for n in 0..2 {
            list.push(Case::new("encoding_get", code, n, vec![]));
        }
    }
    list
}

fn random_encoding_case(rng: &mut Rng) -> Case {
    let at = rng.below(3);
    let mut data = rng.bytes(at);
    let format = *rng.pick(&[0u8, 1, 0x80, 0x81, 0xff, 2]);
    let count = if rng.chance(5) { rng.byte() } else { rng.below(6) as u8 };
    data.extend([format, count]);
    let n = count as usize * rng.range(1, 3) + rng.below(3);
    data.extend(rng.bytes(n));
    Case::new("encoding", 0, at as i64, data)
}

// ---------------------------------------------------------------- strings and names

const TEXTS: &[&[u8]] = &[
    b"", b"a", b"Name", b"Bold Italic", "h\u{e9}".as_bytes(), "\u{20ac}x".as_bytes(), "\u{1f600}".as_bytes(),
    b"\xff", b"a\xffb", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc3\x28", b"\xe2\x28\xa1", b"\xed\xa0\x80",
    b"\xf8\x88\x80\x80\x80", b"\xf0\x9fab", b"\x00", b"\x7f\x80", b"\xc0\x80", b"ab\xfe\xffcd", b"\xef\xbb\xbf",
];

fn random_text(rng: &mut Rng) -> Vec<u8> {
    match rng.below(4) {
        0 => rng.pick(TEXTS).to_vec(),
        1 => {
            let mut out = rng.pick(TEXTS).to_vec();
            out.extend(*rng.pick(TEXTS));
            out
        }
        2 => (0..rng.below(6)).map(|_| rng.range(32, 126) as u8).collect(),
        _ => {
            let n = rng.below(5);
            rng.bytes(n)
        }
    }
}

fn string_cases() -> Vec<Case> {
    let mut list = vec![];
    let texts: Vec<Vec<u8>> = TEXTS.iter().map(|t| t.to_vec()).collect();
    let full = index_of(&texts, 2);
    for id in (0..=430).chain([32767, 32768, 65534, 65535]) {
        for data in [vec![0, 0], index_of(&[b"one".to_vec()], 1), full.clone()] {
            list.push(Case::new("string", id, 0, data));
        }
    }
    for value in [
        -2147483648i64, -65536, -65535, -32768, -2, -1, 0, 1, 390, 391, 392, 32767, 32768, 65534, 65535, 65536, 65537,
        131071, 131072, 16777216, 2147483647,
    ] {
        list.push(Case::new("string_id", value, 0, vec![]));
        list.push(Case::new("string_id", (value as f32).to_bits() as i64, 1, vec![]));
    }
    for value in 0..=65535 {
        list.push(Case::new("string_id", value, 0, vec![]));
    }
    let many: Vec<Vec<u8>> = (0..65145u32).map(|i| vec![(i % 90) as u8 + 33]).collect();
    for id in [391, 65534, 65535] {
        list.push(Case::new("string", id, 0, index_of(&many, 4)));
    }
    list
}

fn names_cases() -> Vec<Case> {
    let mut list = vec![];
    for text in TEXTS {
        list.push(Case::new("names", 0, 0, index_of(&[text.to_vec()], 1)));
        list.push(Case::new("names", 0, 0, index_of(&[b"first".to_vec(), text.to_vec(), b"last".to_vec()], 1)));
    }
    list.push(Case::new("names", 0, 0, vec![0, 0]));
    for count in [127usize, 128, 255, 256, 257, 1000, 32768, 65535] {
        let names: Vec<Vec<u8>> = (0..count).map(|i| TEXTS[i % 8].to_vec()).collect();
        list.push(Case::new("names", 0, 0, index_of(&names, 3)));
        let dictionaries: Vec<Vec<u8>> = (0..count).map(|i| entry(17, &[i as i32])).collect();
        for n in [0, count - 1, count] {
            list.push(Case::new("dictionaries", n as i64, 0, index_of(&dictionaries, 4)));
        }
    }
    for length in [127usize, 128, 255, 256, 257, 1000, 65535, 65536, 70000] {
        for text in [&b"a"[..], b"\xff", "\u{e9}".as_bytes(), b"\xc3("] {
            list.push(Case::new("names", 0, 0, index_of(&[text.repeat(length)], 4)));
        }
    }
    for n in 0..4 {
        for data in [
            vec![], vec![vec![140, 17]], vec![vec![140, 17], vec![], vec![141, 15]], vec![vec![141, 15], vec![31]],
            vec![vec![31], vec![141, 15]], vec![vec![], vec![]], vec![vec![140, 17], vec![142, 17], vec![12, 200]],
        ] {
            list.push(Case::new("dictionaries", n, 0, index_of(&data, 1)));
        }
    }
    list
}

fn random_objects(rng: &mut Rng) -> Vec<u8> {
    let mut objects = vec![];
    for _ in 0..rng.below(6) {
        objects.push(random_text(rng));
    }
    let size = size_for(rng, &objects);
    index_of(&objects, size)
}

// ---------------------------------------------------------------- mappings

fn mapping_cases() -> Vec<Case> {
    let mut list = vec![];
    let tail: Vec<u8> = (1..=200).collect();
    for glyphs in [0i64, 1, 2, 3, 5, 10, 100] {
        for format in [0u8, 1, 2, 3, 4, 255] {
            for count in 0..4u8 {
                let mut data = vec![format, 0, count];
                data.extend(&tail);
                for kind in ["mapping", "mapping0"] {
                    list.push(Case::new(kind, glyphs, 0, data.clone()));
                    for cut in 0..18 {
                        list.push(Case::new(kind, glyphs, 0, data[..cut].to_vec()));
                    }
                }
            }
        }
    }
    for glyphs in [255i64, 256, 257, 300, 65535] {
        for more in [-1, 0, 1] {
            let data = vec![0; (1 + glyphs + more) as usize];
            list.push(Case::new("mapping", glyphs, 0, data.clone()));
            list.push(Case::new("mapping0", glyphs, 0, data));
        }
    }
    for count in [255usize, 256, 300, 65535] {
        for more in [0, 1, 2, 3] {
            let mut data = vec![3, (count >> 8) as u8, count as u8];
            data.resize(3 + 3 * count + more, 7);
            list.push(Case::new("mapping", 1, 0, data));
        }
    }
    list
}

fn random_mapping(rng: &mut Rng, glyphs: usize) -> Vec<u8> {
    if rng.chance(2) {
        let mut out = vec![0];
        out.extend(rng.bytes(glyphs));
        out
    } else {
        let n = rng.below(4);
        let mut out = vec![3, 0, n as u8];
        out.extend(rng.bytes(3 * n + 2));
        out
    }
}

// ---------------------------------------------------------------- font sets

#[derive(Clone)]
enum Value {
    Int(i32),
    /// The position of a piece.
    At(usize),
    Size(usize),
    /// The distance between the first and the second piece.
    Between(usize, usize),
    Bytes(Vec<u8>),
}

#[derive(Clone)]
enum Piece {
    Raw(Vec<u8>),
    Dictionary(Vec<(u16, Vec<Value>)>),
    /// An index of dictionaries.
    Dictionaries(Vec<Vec<(u16, Vec<Value>)>>),
}

fn dictionary_bytes(entries: &[(u16, Vec<Value>)], places: &[(usize, usize)]) -> Vec<u8> {
    let mut out = vec![];
    let place = |i: usize| places.get(i).copied().unwrap_or((0, 0));
    for (code, values) in entries {
        for value in values {
            match value {
                Value::Int(v) => out.extend(int5(*v)),
                Value::At(i) => out.extend(int5(place(*i).0 as i32)),
                Value::Size(i) => out.extend(int5(place(*i).1 as i32)),
                Value::Between(i, j) => out.extend(int5((place(*j).0 as i32).wrapping_sub(place(*i).0 as i32))),
                Value::Bytes(b) => out.extend(b),
            }
        }
        out.extend(operator(*code));
    }
    out
}

fn piece_bytes(piece: &Piece, places: &[(usize, usize)]) -> Vec<u8> {
    match piece {
        Piece::Raw(bytes) => bytes.clone(),
        Piece::Dictionary(entries) => dictionary_bytes(entries, places),
        Piece::Dictionaries(list) => {
            let objects: Vec<_> = list.iter().map(|d| dictionary_bytes(d, places)).collect();
            let bytes: usize = objects.iter().map(Vec::len).sum();
            index_of(&objects, if bytes > 60000 { 3 } else { 2 })
        }
    }
}

/// What may be wrong with the operands of a dictionary.
fn spoil(rng: &mut Rng, dict: &mut Vec<(u16, Vec<Value>)>, only: &[u16]) {
    let candidates: Vec<usize> = (0..dict.len()).filter(|i| only.is_empty() || only.contains(&dict[*i].0)).collect();
    if candidates.is_empty() {
        return;
    }
    let i = *rng.pick(&candidates);
    let values = &mut dict[i].1;
    match rng.below(11) {
        0 => {
            dict.remove(i);
        }
        1 => values.clear(),
        2 => values.truncate(1),
        3 => values.push(Value::Int(rng.below(100) as i32)),
        4 => {
            let repeated = (dict[i].0, vec![Value::Int(rng.below(60) as i32), Value::Int(rng.below(60) as i32)]);
            dict.push(repeated);
        }
        n if !values.is_empty() => {
            let at = rng.below(values.len());
            values[at] = match n {
                // One of the first parts, as the header.
                9 | 10 => match values[at] {
                    Value::Between(from, _) => Value::Between(from, [0, 0, 0, 1, 3, 4][rng.below(6)]),
                    _ => Value::At([0, 0, 0, 1, 3, 4][rng.below(6)]),
                },
                5 => Value::Int(*rng.pick(&[-1, -5, i32::MIN, -32768, -65536])),
                6 => Value::Bytes(real(&[3, 10, 0])),
                7 => Value::Int(*rng.pick(&[i32::MAX, 1 << 30, 65536, 0, 1, 2, 3])),
                _ => Value::Int(rng.below(120) as i32),
            };
        }
        _ => {}
    }
}

pub struct Wish {
    /// Chance of a spoiled operand, one in this many.
    pub spoiled: usize,
    /// The operators that may be spoiled; all if empty.
    pub only: &'static [u16],
    /// Names, identifiers, or either.
    pub cid: Option<bool>,
    /// The numbers of fonts, of font dictionaries, and of glyphs.
    pub sizes: (Option<usize>, Option<usize>, Option<usize>),
}

pub fn font(rng: &mut Rng, wish: &Wish) -> Vec<u8> {
    font_with(rng, wish, false).0
}

/// A font set, possibly with a large hole in front of one of its parts.
fn font_with(rng: &mut Rng, wish: &Wish, vast: bool) -> (Vec<u8>, usize, usize) {
    let fonts = match wish.sizes.0 {
        Some(n) => n,
        None if rng.chance(2000) => rng.range(250, 300),
        None if rng.chance(50) => rng.range(4, 40),
        None => *rng.pick(&[1usize, 1, 1, 2, 3]),
    };
    let mut pieces: Vec<Piece> = vec![];
    let mut tops = vec![];
    // The first five are fixed: header, names, dictionaries, strings, subroutines.
    let header_size = *rng.pick(&[4usize, 4, 4, 5, 6, 8, 17]);
    let mut header = vec![*rng.pick(&[1, 1, 1, 0, 0, 3]), rng.below(3) as u8, header_size as u8, rng.range(1, 4) as u8];
    header.extend(rng.bytes(header_size - 4));
    let names: Vec<Vec<u8>> = (0..fonts).map(|i| format!("Font{i}").into_bytes()).collect();
    pieces.push(Piece::Raw(header));
    pieces.push(Piece::Raw(index_of(&names, rng.range(1, 4))));
    pieces.push(Piece::Raw(vec![]));
    let strings: Vec<Vec<u8>> = (0..rng.below(4)).map(|i| format!("string{i}").into_bytes()).collect();
    pieces.push(Piece::Raw(index_of(&strings, rng.range(1, 4))));
    let subrs: Vec<Vec<u8>> = (0..rng.below(4)).map(|i| vec![i as u8; i + 1]).collect();
    pieces.push(Piece::Raw(index_of(&subrs, rng.range(1, 4))));
    for _ in 0..fonts {
        let cid = wish.cid.unwrap_or_else(|| rng.chance(2));
        let glyphs = match wish.sizes.2 {
            Some(n) => n,
            None if rng.chance(100) => rng.range(250, 600),
            None if rng.chance(20) => rng.range(6, 70),
            None => rng.range(1, 5),
        };
        let mut top: Vec<(u16, Vec<Value>)> = vec![];
        let add = |pieces: &mut Vec<Piece>, piece: Piece| {
            pieces.push(piece);
            pieces.len() - 1
        };
        if cid {
            top.push((0x0c1e, vec![
                Value::Int(rng.below(400) as i32), Value::Int(rng.below(400) as i32), Value::Int(rng.below(9) as i32),
            ]));
        }
        let programs: Vec<Vec<u8>> = (0..glyphs).map(|i| vec![139 + (i % 100) as u8, 22, 14]).collect();
        let size = size_for(rng, &programs);
        let n = add(&mut pieces, Piece::Raw(index_of(&programs, size)));
        top.push((17, vec![Value::At(n)]));
        if rng.chance(3) {
            top.push((0x0c06, vec![Value::Int(if wish.spoiled > 0 && rng.chance(8) { 1 } else { 2 })]));
        }
        match rng.below(4) {
            0 => {}
            1 => top.push((15, vec![Value::Int(rng.below(3) as i32)])),
            _ => {
                let format = rng.below(3) as u8;
                let n = add(&mut pieces, Piece::Raw(charset_of(format, glyphs, rng)));
                top.push((15, vec![Value::At(n)]));
            }
        }
        match rng.below(4) {
            0 => {}
            1 => top.push((16, vec![Value::Int(rng.below(2) as i32)])),
            _ => {
                let format = rng.below(2);
                let count = rng.below(4);
                let mut bytes = vec![format as u8, count as u8];
                bytes.extend(rng.bytes(count * (format + 1)));
                let n = add(&mut pieces, Piece::Raw(bytes));
                top.push((16, vec![Value::At(n)]));
            }
        }
        let mut holders = vec![];
        let count = match wish.sizes.1 {
            _ if !cid => 1,
            Some(n) => n,
            None if rng.chance(1000) => rng.range(250, 260),
            None if rng.chance(50) => rng.range(4, 40),
            None => rng.range(0, 3),
        };
        let spoiled = if count > 3 { wish.spoiled * count } else { wish.spoiled };
        for i in 0..count {
            let mut private = vec![(20, vec![Value::Int(500 + i as i32)]), (21, vec![Value::Int(rng.below(600) as i32)])];
            let place = pieces.len();
            if rng.chance(2) {
                let local: Vec<Vec<u8>> = (0..rng.below(4)).map(|i| vec![11 + i as u8; i + 1]).collect();
                private.push((19, vec![Value::Between(place, place + 1)]));
                if spoiled > 0 && rng.chance(spoiled) {
                    spoil(rng, &mut private, &[19]);
                }
                add(&mut pieces, Piece::Dictionary(private));
                add(&mut pieces, Piece::Raw(index_of(&local, rng.range(1, 4))));
            } else {
                if rng.chance(6) {
                    private.clear();
                }
                add(&mut pieces, Piece::Dictionary(private));
            }
            holders.push((18u16, vec![Value::Size(place), Value::At(place)]));
        }
        if cid {
            let mut list: Vec<Vec<(u16, Vec<Value>)>> = vec![];
            for (i, holder) in holders.into_iter().enumerate() {
                let mut dict = vec![(0x0c26, vec![Value::Int(391 + i as i32)]), holder];
                if spoiled > 0 && rng.chance(2 * spoiled) {
                    spoil(rng, &mut dict, wish.only);
                }
                list.push(dict);
            }
            let n = add(&mut pieces, Piece::Dictionaries(list));
            top.push((0x0c24, vec![Value::At(n)]));
            let n = add(&mut pieces, Piece::Raw(random_mapping(rng, glyphs)));
            top.push((0x0c25, vec![Value::At(n)]));
            // A dictionary with the operators of both kinds of fonts.
            if rng.chance(4) {
                let n = add(&mut pieces, Piece::Dictionary(vec![(20, vec![Value::Int(7)])]));
                top.push((18, vec![Value::Size(n), Value::At(n)]));
            }
        } else {
            top.extend(holders);
            if rng.chance(8) {
                let n = add(&mut pieces, Piece::Dictionaries(vec![]));
                top.push((0x0c24, vec![Value::At(n)]));
                let n = add(&mut pieces, Piece::Raw(random_mapping(rng, glyphs)));
                top.push((0x0c25, vec![Value::At(n)]));
            }
        }
        if rng.chance(4) {
            for i in (1..top.len()).rev() {
                top.swap(i, rng.below(i + 1));
            }
        }
        if wish.spoiled > 0 && rng.chance(wish.spoiled * fonts.max(3) / 3) {
            spoil(rng, &mut top, wish.only);
        }
        tops.push(top);
    }
    pieces[2] = Piece::Dictionaries(tops);
    // The rest in any order and with gaps.
    let mut order: Vec<usize> = (5..pieces.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, rng.below(i + 1));
    }
    let mut sequence: Vec<usize> = (0..5).collect();
    sequence.extend(order);
    let gaps: Vec<Vec<u8>> = (0..pieces.len())
        .map(|i| {
            let n = if i >= 5 && rng.chance(3) { rng.range(1, 4) } else { 0 };
            rng.bytes(n)
        })
        .collect();
    let mut places: Vec<(usize, usize)> = vec![(0, 0); pieces.len()];
    let behind = if !vast || sequence.len() < 6 {
        usize::MAX
    } else if rng.chance(2) {
        sequence.len() - 1
    } else {
        rng.range(5, sequence.len() - 1)
    };
    let target = match rng.below(6) {
        0 => (i32::MAX as usize) - rng.below(9),
        1 => 1 << 30,
        2 => (1 << 24) + rng.below(9) - 4,
        3 => (1 << 16) + rng.below(9) - 4,
        4 => (1 << 15) + rng.below(9) - 4,
        _ => rng.next() as usize % i32::MAX as usize,
    };
    let (mut hole, mut size) = (0, 0);
    let mut out = vec![];
    for _ in 0..2 {
        out.clear();
        for (k, i) in sequence.iter().enumerate() {
            out.extend(&gaps[*i]);
            if k == behind {
                hole = out.len();
                size = target.saturating_sub(hole);
            }
            let bytes = piece_bytes(&pieces[*i], &places);
            let jump = if k >= behind { size } else { 0 };
            places[*i] = (out.len() + jump, bytes.len());
            out.extend(bytes);
        }
    }
    let mut last = vec![];
    for i in &sequence {
        last.extend(&gaps[*i]);
        last.extend(piece_bytes(&pieces[*i], &places));
    }
    (last, hole, size)
}

fn mutate(rng: &mut Rng, data: &mut Vec<u8>) {
    if data.is_empty() {
        return;
    }
    for _ in 0..rng.range(1, 3) {
        let at = rng.below(data.len());
        match rng.below(5) {
            0 => data.truncate(at.max(1)),
            1 => data.insert(at, rng.byte()),
            2 if data.len() > 1 => {
                data.remove(at);
            }
            _ => data[at] = rng.byte(),
        }
    }
}

fn behind(rng: &mut Rng, data: Vec<u8>) -> (Vec<u8>, i64) {
    let n = *rng.pick(&[0usize, 0, 1, 2, 7, 100]);
    let mut all = rng.bytes(n);
    all.extend(data);
    (all, n as i64)
}

fn vast_case(rng: &mut Rng, kind: &str, part: i64, wish: &Wish) -> Case {
    let (data, hole, size) = font_with(rng, wish, true);
    let (data, at) = behind(rng, data);
    let mut case = Case::new(kind, part, at, data);
    if size > 0 {
        case.one = vec![(((hole + at as usize) as u128) << 64 | size as u128).to_be_bytes().to_vec()];
    }
    case
}

fn font_case(rng: &mut Rng, part: i64, wish: &Wish) -> Case {
    if rng.chance(8) {
        return vast_case(rng, "font", part, wish);
    }
    let mut data = font(rng, wish);
    if wish.spoiled > 0 && rng.chance(12) {
        let n = data.len();
        data.truncate(rng.range(n / 2, n));
    }
    let (data, at) = behind(rng, data);
    Case::new("font", part, at, data)
}

/// Sound font sets with many fonts, dictionaries, or glyphs.
fn many_cases(part: i64) -> Vec<Case> {
    let mut rng = Rng::new(part as u64);
    let mut list = vec![];
    let edges = [0usize, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000];
    for n in edges {
        for cid in [false, true] {
            for sizes in [(Some(n), None, None), (None, Some(n), None), (None, None, Some(n.max(1)))] {
                if sizes.1.is_some() && !cid {
                    continue;
                }
                let wish = Wish { cid: if sizes.0.is_some() && cid { None } else { Some(cid) }, sizes, ..SOUND };
                let data = font(&mut rng, &wish);
                let (data, at) = behind(&mut rng, data);
                list.push(Case::new("font", part, at, data));
            }
        }
    }
    for n in [2048usize, 4097, 32767, 32768, 65535] {
        let wish = Wish { cid: None, sizes: (Some(1), None, Some(n)), ..SOUND };
        list.push(Case::new("font", part, 0, font(&mut rng, &wish)));
    }
    list
}

const LAYOUT: Wish = Wish { spoiled: 3, only: &[15, 16, 17, 0x0c06], cid: None, sizes: (None, None, None) };
const PRIVATE: Wish = Wish { spoiled: 3, only: &[18], cid: None, sizes: (None, None, None) };
const CID: Wish = Wish { spoiled: 3, only: &[0x0c1e, 0x0c24, 0x0c25], cid: Some(true), sizes: (None, None, None) };
const ANY: Wish = Wish { spoiled: 4, only: &[], cid: None, sizes: (None, None, None) };
const SOUND: Wish = Wish { spoiled: 0, only: &[], cid: None, sizes: (None, None, None) };

// ---------------------------------------------------------------- charstrings

fn small(rng: &mut Rng) -> u8 {
    rng.range(32, 246) as u8
}

fn program(part: i64, code: Vec<u8>) -> Case {
    Case::new("program", part, 0, code)
}

/// Every encoding of an operand.
fn operand(rng: &mut Rng) -> Vec<u8> {
    match rng.below(6) {
        0 | 1 => vec![small(rng)],
        2 => vec![rng.range(247, 250) as u8, rng.byte()],
        3 => vec![rng.range(251, 254) as u8, rng.byte()],
        4 => vec![28, rng.byte(), rng.byte()],
        _ => vec![255, rng.byte(), rng.byte(), rng.byte(), rng.byte()],
    }
}

fn operand_cases() -> Vec<Case> {
    let mut list = vec![];
    for first in 0..=255u8 {
        for rest in [vec![], vec![0], vec![255], vec![1, 2], vec![128, 0], vec![127, 255, 128, 0], vec![255; 4], vec![0, 1, 0, 0],
            vec![0x80, 0, 0, 0], vec![0, 0, 0, 1], vec![0xff, 0xff, 0x7f, 0xff], vec![0, 0, 0x80, 0], vec![0x7f, 0xff, 0xff, 0xff]] {
            let mut data = vec![first];
            data.extend(rest);
            if !matches!(first, 10 | 11 | 14 | 19 | 20 | 29) && first != 12 {
                list.push(program(14, [data.clone(), vec![22]].concat()));
            }
        }
    }
    for first in 247..=254u8 {
        for second in 0..=255u8 {
            list.push(program(14, vec![first, second, 22]));
        }
    }
    for high in 0..=255u8 {
        for low in [0, 1, 127, 128, 255] {
            list.push(program(14, vec![28, high, low, 4]));
            list.push(program(14, vec![255, high, low, low, high, 4]));
            list.push(program(14, vec![255, low, low, high, low, 4]));
        }
    }
    for code in 0..=255i64 {
        for n in [code, 0x0c00 + code, 0x0d00 + code, 0x0b00 + code, code * 256] {
            list.push(Case::new("type2_operator", n, 0, vec![]));
        }
        // The operators with operands that suit many of them.
        if !matches!(code, 10 | 11 | 12 | 14 | 19 | 20 | 28 | 29 | 32..=255) {
            for n in [0, 1, 2, 4, 7, 8, 9, 11, 12, 13, 14] {
                let mut data: Vec<u8> = (0..n).map(|i| 140 + i as u8).collect();
                data.push(code as u8);
                data.extend([150, 22]);
                list.push(program(14, data));
            }
        }
        if matches!(code, 0x00..=0x02 | 0x06..=0x08 | 0x0d | 0x10 | 0x11 | 0x13 | 0x1f..=0x21 | 0x22..=0xff) {
            for n in [0, 1, 7, 9, 11, 13] {
                let mut data: Vec<u8> = (0..n).map(|i| 140 + i as u8).collect();
                data.extend([12, code as u8, 150, 22]);
                list.push(program(14, data));
            }
        }
    }
    list
}

fn random_operands_program(rng: &mut Rng) -> Case {
    let mut data = vec![];
    for _ in 0..rng.range(1, 4) {
        match rng.below(3) {
            0 => {
                data.extend(operand(rng));
                data.push(*rng.pick(&[4u8, 22]));
            }
            1 => {
                for _ in 0..2 * rng.range(1, 3) {
                    data.extend(operand(rng));
                }
                data.push(5);
            }
            _ => {
                for _ in 0..6 {
                    data.extend(operand(rng));
                }
                data.push(8);
            }
        }
    }
    match rng.below(6) {
        0 => {
            let n = data.len();
            data.truncate(n - 1);
        }
        1 => data.push(*rng.pick(&[0u8, 2, 9, 13, 15, 16, 17])),
        2 => data.extend(operand(rng)),
        _ => {}
    }
    program(14, data)
}

const ARITHMETIC: &[u8] = &[3, 4, 5, 9, 10, 11, 12, 14, 15, 18, 22, 24, 26, 27, 28, 29, 30];

fn value_bytes(rng: &mut Rng) -> Vec<u8> {
    match rng.below(10) {
        0 => vec![139],
        1 => vec![255, 0, rng.below(3) as u8, *rng.pick(&[0u8, 0x80, 0x40, 1]), 0],
        2 => vec![255, 255, 255, 0x80, 0],
        3 => operand(rng),
        _ => vec![rng.range(133, 146) as u8],
    }
}

/// Code that leaves an integer that no operand can denote.
fn great(value: i32) -> Vec<u8> {
    let low = value.rem_euclid(256);
    let (mut high, mut code) = (value.div_euclid(256), vec![]);
    let mut doubled = 0;
    while high < -32768 || high > 32767 {
        high = high.div_euclid(2);
        doubled += 1;
    }
    code.extend(int(high));
    code.extend([int(256), vec![12, 24]].concat());
    for _ in 0..doubled {
        code.extend([141, 12, 24]);
    }
    if low > 0 && doubled == 0 {
        code.extend([int(low), vec![12, 10]].concat());
    }
    code
}

/// Integers around those at which narrower types wrap.
fn wrapping() -> Vec<i32> {
    let mut list = vec![];
    for base in [256, -256, 32768, -32768, 65536, -65536, 131072, -131072, 1 << 23, -(1 << 23)] {
        for more in -4..=8 {
            list.push(base + more);
        }
    }
    list.extend([1 << 24, -(1 << 24), 1 << 28, 3 << 28, 1 << 30, -(1 << 30), i32::MIN]);
    list
}

fn arithmetic_cases() -> Vec<Case> {
    let mut list = vec![];
    for value in wrapping() {
        for length in [0, 1, 2, 3, 5, 7] {
            let data: Vec<u8> = (0..length).map(|i| 149 + i as u8).collect();
            list.push(program(15, [data.clone(), great(value), vec![12, 29, 6]].concat()));
            list.push(program(15, [data.clone(), great(value), vec![140, 12, 30, 6]].concat()));
            list.push(program(15, [data.clone(), vec![142], great(value), vec![12, 30, 6]].concat()));
            list.push(program(15, [data.clone(), great(value), great(value), vec![12, 30, 6]].concat()));
        }
    }
    for op in ARITHMETIC {
        for n in 0..=6usize {
            // Values that include zeros, negatives and equals.
            for (a, b) in [(3, 5), (5, 3), (0, 4), (4, 0), (0, 0), (-2, 3), (-2, -2), (7, 2), (2, -1), (3, 1), (3, 2), (3, -2), (4, 4), (1, 1), (6, 9), (2, -2), (-5, 5), (5, -5)] {
                let mut data: Vec<u8> = (0..n).map(|i| 139 + 10 + i as u8).collect();
                if n >= 1 {
                    data[n - 1] = (139 + b) as u8;
                }
                if n >= 2 {
                    data[n - 2] = (139 + a) as u8;
                }
                data.extend([12, *op, 6]);
                list.push(program(15, data));
            }
        }
    }
    // Rolls of all small sizes.
    for length in 0..=6usize {
        for span in -1..=7i32 {
            for shift in -15..=15i32 {
                let mut data: Vec<u8> = (0..length).map(|i| 149 + i as u8).collect();
                data.extend(int(span));
                data.extend(int(shift));
                data.extend([12, 30, 6]);
                list.push(program(15, data));
            }
        }
    }
    for span in [3i32, 7, 50] {
        for shift in [32767i32, -32768, 1000, -1000] {
            let mut data: Vec<u8> = (0..60).map(|i| 100 + i as u8).collect();
            data.extend(int(span));
            data.extend(int(shift));
            data.extend([12, 30, 6]);
            list.push(program(15, data));
        }
    }
    for length in 0..=6usize {
        for i in -3..=8i32 {
            let mut data: Vec<u8> = (0..length).map(|i| 149 + i as u8).collect();
            data.extend(int(i));
            data.extend([12, 29, 6]);
            list.push(program(15, data));
        }
    }
    // Deep stacks.
    for length in [47usize, 48, 49, 96, 127, 128, 129, 192, 193, 255, 256, 257, 300, 513, 1000] {
        let data: Vec<u8> = (0..length).map(|i| 32 + (i * 7 % 200) as u8).collect();
        for i in [length as i32 - 2, length as i32 - 1, length as i32, 46, 47, 127, 128, 255, 256] {
            list.push(program(15, [data.clone(), int(i), vec![12, 29, 6]].concat()));
            for shift in [1, -1, 2, 47, 48, 49, 127, 128, 129, -128, -129, 255, 256, 257, -255, -256, -257, i - 1, i, 1 - i] {
                list.push(program(15, [data.clone(), int(i), int(shift), vec![12, 30, 6]].concat()));
            }
        }
        for op in ARITHMETIC {
            list.push(program(15, [data.clone(), vec![140, 12, *op, 6]].concat()));
        }
    }
    for values in [[0u8, 0, 0x80, 0], [255, 255, 0x80, 0], [0, 1, 0, 1], [0, 2, 0x80, 0]] {
        for op in ARITHMETIC {
            for where_ in 0..2 {
                let mut data = vec![149, 150, 151, 141, 141];
                data.truncate(3 + where_);
                data.push(255);
                data.extend(values);
                if where_ == 0 {
                    data.push(140);
                }
                data.extend([12, *op, 6]);
                list.push(program(15, data));
            }
        }
    }
    list
}

fn random_arithmetic(rng: &mut Rng) -> Case {
    let mut data = vec![];
    for _ in 0..rng.range(1, 3) {
        for _ in 0..rng.below(8) {
            data.extend(value_bytes(rng));
        }
        for _ in 0..rng.range(1, 4) {
            if rng.chance(2) {
                data.extend(value_bytes(rng));
            }
            if rng.chance(5) {
                data.extend([12, 24, 12, 24]);
            }
            data.extend([12, *rng.pick(ARITHMETIC)]);
        }
    }
    // All that is left.
    data.extend([140, 6]);
    program(15, data)
}

const PATHS: &[&[u8]] = &[
    &[21], &[22], &[4], &[5], &[6], &[7], &[8], &[27], &[26], &[31], &[30], &[24], &[25], &[12, 35], &[12, 37],
    &[12, 34], &[12, 36], &[1], &[3], &[18], &[23],
];

fn path_cases(part: i64) -> Vec<Case> {
    let mut list = vec![];
    for path in PATHS {
        for n in (0..=40).chain([47, 48, 49, 95, 96, 97, 255, 256, 257, 513, 4099]) {
            let data: Vec<u8> = (0..n).map(|i| 32 + (i * 7 % 200) as u8).collect();
            let data = [data, path.to_vec(), vec![145, 22]].concat();
            list.push(program(part, data));
        }
    }
    for path in [&[21u8][..], &[22], &[4], &[5], &[8], &[30], &[12, 35], &[1], &[23]] {
        for n in [65535usize, 65536, 65537, 65538, 65541, 65544] {
            let data: Vec<u8> = (0..n).map(|i| 32 + (i * 7 % 197) as u8).collect();
            list.push(program(part, [data, path.to_vec(), vec![145, 22]].concat()));
        }
    }
    list
}

fn random_paths(rng: &mut Rng, part: i64) -> Case {
    let mut data = vec![];
    for _ in 0..rng.range(1, 4) {
        let n = if rng.chance(8) { rng.range(20, 60) } else { rng.below(20) };
        data.extend((0..n).map(|_| small(rng)));
        data.extend(*rng.pick(PATHS));
    }
    program(part, data)
}

fn mask_cases() -> Vec<Case> {
    let mut list = vec![];
    for mask in [19u8, 20] {
        for stems in (0..=40).chain([63, 64, 65, 95, 96, 97, 127, 128, 129, 200]) {
            for implicit in [0, 1, 2, 3, 8] {
                let mut data: Vec<u8> = vec![140; 2 * stems];
                if stems > 0 {
                    data.push(18);
                }
                data.extend(vec![141; 2 * implicit]);
                data.push(mask);
                let bytes = (stems + implicit + 7) / 8;
                data.extend((0..bytes).map(|i| [22u8, 255, 0, 30, 141][i % 5]));
                for tail in [vec![145, 22], vec![], vec![145, 22, 146, 4, 14]] {
                    list.push(program(17, [data.clone(), tail].concat()));
                }
                if bytes > 0 {
                    data.pop();
                    list.push(program(17, data.clone()));
                }
            }
        }
        // Many stems, from several operators.
        for stems in [255usize, 256, 257, 300, 511, 512, 520, 2047, 2048, 2049, 32767, 32768, 65535, 65536, 65544] {
            let mut data = vec![];
            let mut left = stems;
            while left > 0 {
                let n = left.min(if stems > 3000 { 5000 } else { 24 });
                data.extend(vec![140; 2 * n]);
                data.push(18);
                left -= n;
            }
            data.push(mask);
            data.extend(vec![0; (stems + 7) / 8]);
            for tail in [vec![145, 22], vec![140, 141, mask], vec![]] {
                let mut data = [data.clone(), tail.clone()].concat();
                if tail.len() == 3 {
                    data.extend(vec![0; (stems + 8) / 8]);
                    data.extend([145, 22]);
                }
                list.push(program(17, data.clone()));
                data.pop();
                if tail.is_empty() {
                    list.push(program(17, data));
                }
            }
        }
        // Masks one after another, and several stem operators.
        for n in 0..20usize {
            let mut data = vec![];
            for (i, stem) in [1u8, 3, 18, 23].iter().enumerate() {
                data.extend(vec![140; 2 * ((n + i) % 5 + 1)]);
                data.push(*stem);
            }
            let stems: usize = (0..4).map(|i| (n + i) % 5 + 1).sum();
            for _ in 0..3 {
                data.push(mask);
                data.extend(vec![22; (stems + 7) / 8]);
                data.extend([145, 22]);
            }
            list.push(program(17, data));
        }
        // A width in front.
        for stem in [1u8, 3, 18, 23] {
            for n in 1..20usize {
                let mut data = vec![140; 2 * n + 1];
                data.push(stem);
                data.push(mask);
                data.extend(vec![4; (n + 7) / 8]);
                data.extend([145, 22]);
                list.push(program(17, data));
            }
        }
        for n in 0..20usize {
            let mut data = vec![140; 2 * n + 1];
            data.push(mask);
            data.extend(vec![4; (n + 7) / 8]);
            data.extend([145, 22]);
            list.push(program(17, data));
        }
    }
    list
}

fn random_masks(rng: &mut Rng) -> Case {
    let mut data = vec![];
    let mut stems = 0;
    for _ in 0..rng.range(1, 6) {
        match rng.below(4) {
            0 => {
                let n = rng.range(1, 12);
                data.extend(vec![140; 2 * n + rng.below(2)]);
                data.push(*rng.pick(&[1u8, 3, 18, 23]));
                stems += n;
            }
            1 => data.extend([145, 22]),
            _ => {
                let n = rng.below(6);
                data.extend(vec![140; 2 * n + rng.below(2)]);
                stems += n;
                data.push(rng.range(19, 20) as u8);
                data.extend(rng.bytes((stems + 7) / 8));
            }
        }
    }
    if rng.chance(6) {
        data.pop();
    }
    program(17, data)
}

fn width_cases() -> Vec<Case> {
    let mut list = path_cases(18);
    for n in 0..=9u8 {
        let operands: Vec<u8> = (0..n).map(|i| 150 + i).collect();
        for tail in [vec![14], vec![14, 14], vec![19, 0, 150, 22], vec![20, 7, 150, 151, 22, 152, 153, 21]] {
            list.push(program(18, [operands.clone(), tail].concat()));
        }
    }
    // A second clearing operator with a surplus.
    for first in PATHS.iter().copied().chain([&[19u8, 1][..], &[14][..]]) {
        for n in [0u8, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 13, 14] {
            let operands: Vec<u8> = (0..n).map(|i| 150 + i).collect();
            for tail in [vec![160, 161, 22], vec![160, 161, 162, 21], vec![160, 14], vec![160, 161, 162, 1], vec![160, 20, 9, 9, 9]] {
                list.push(program(18, [operands.clone(), first.to_vec(), tail].concat()));
            }
        }
    }
    list
}

fn random_width(rng: &mut Rng) -> Case {
    let mut data = vec![];
    let mut stems = 0;
    for _ in 0..rng.range(1, 4) {
        let n = rng.below(10);
        data.extend((0..n).map(|_| small(rng)));
        match rng.below(6) {
            0 => {
                stems += n / 2;
                data.push(19);
                data.extend(vec![1; (stems + 7) / 8]);
            }
            1 => data.push(14),
            _ => {
                let path = *rng.pick(PATHS);
                if matches!(path, [1] | [3] | [18] | [23]) {
                    stems += n / 2;
                }
                data.extend(path);
            }
        }
    }
    program(18, data)
}

/// The same program with a part of it in subroutines, one within another.
fn nested(rng: &mut Rng, mut case: Case) -> Case {
    if !case.one.is_empty() || !case.two.is_empty() || case.data.len() > 20_000 {
        return case;
    }
    let data = std::mem::take(&mut case.data);
    // The boundaries of operands and operators as far as the first mask.
    let mut edges = vec![0];
    let mut at = 0;
    while at < data.len() && data[at] != 19 && data[at] != 20 {
        at += match data[at] {
            28 => 3,
            12 | 247..=254 => 2,
            255 => 5,
            _ => 1,
        };
        if at <= data.len() {
            edges.push(at);
        }
    }
    let from = if rng.chance(3) { 0 } else { *rng.pick(&edges) };
    let to = if rng.chance(3) { *rng.pick(&edges) } else { data.len() };
    let (from, to) = if from <= to { (from, to) } else { (to, from) };
    let mut inner = data[from..to].to_vec();
    if rng.chance(2) {
        inner.push(11);
    }
    let levels = rng.range(1, 9);
    let mut call = 0;
    for i in 0..levels {
        let list = if rng.chance(2) {
            call = 29;
            &mut case.one
        } else {
            call = 10;
            &mut case.two
        };
        list.push(std::mem::take(&mut inner));
        let target = list.len() as i32 - 1 - 107;
        inner = [int(target), vec![call]].concat();
        if i + 1 < levels && rng.chance(2) {
            inner.push(11);
        }
    }
    let _ = call;
    case.data = [data[..from].to_vec(), inner, data[to..].to_vec()].concat();
    case
}

fn with_nested(seed: u64, list: Vec<Case>) -> Vec<Case> {
    let mut rng = Rng::new(seed);
    let more: Vec<Case> = list.iter().map(|case| nested(&mut rng, case.clone())).collect();
    list.into_iter().chain(more).collect()
}

/// What can come in front of a program and leave a state behind: hints, masks, moves.
const PRELUDES: &[&[u8]] = &[
    &[140, 141, 18], &[140, 141, 1, 142, 143, 3], &[140, 141, 22], &[150, 140, 141, 21], &[140, 141, 18, 19, 7],
    &[150, 140, 141, 1, 20, 255, 140, 4], &[140, 141, 140, 141, 18, 142, 143, 23], &[139, 22, 139, 4],
];

fn after(prelude: &[u8], mut case: Case) -> Case {
    if case.one.is_empty() && case.two.is_empty() {
        case.data = [prelude, &case.data].concat();
    }
    case
}

/// The programs, and each of them once more behind one of the preludes.
fn with_preludes(list: Vec<Case>) -> Vec<Case> {
    let more: Vec<Case> = (list.iter().filter(|case| case.data.len() < 5000).enumerate())
        .map(|(i, case)| after(PRELUDES[(i + i / PRELUDES.len()) % PRELUDES.len()], case.clone()))
        .collect();
    list.into_iter().chain(more).collect()
}

fn perhaps_nested(rng: &mut Rng, case: Case) -> Case {
    let case = if rng.chance(4) { after(*rng.pick(PRELUDES), case) } else { case };
    if rng.chance(3) {
        nested(rng, case)
    } else {
        case
    }
}

/// A program that says which subroutine it is.
fn marker(n: u8) -> Vec<u8> {
    vec![139 + n, 22, 11]
}

fn bias(count: usize) -> i32 {
    if count < 1240 {
        107
    } else if count < 33900 {
        1131
    } else {
        32768
    }
}

fn calls(code: Vec<u8>, global: Vec<Vec<u8>>, local: Vec<Vec<u8>>) -> Case {
    Case { kind: "program".into(), n: 19, m: 0, data: code, one: global, two: local }
}

fn call_cases() -> Vec<Case> {
    let mut list = vec![];
    for count in [0usize, 1, 2, 107, 108, 1238, 1239, 1240, 1241, 2000, 33898, 33899, 33900, 33901, 40000, 65535] {
        for target in [0i64, 1, count as i64 / 2, count as i64 - 2, count as i64 - 1, count as i64, -1, count as i64 + 1] {
            let operand = target - bias(count) as i64;
            if operand < -32768 || operand > 32767 || target < -1 {
                continue;
            }
            let mut list_of = vec![marker(1); count];
            if target >= 0 && (target as usize) < count {
                list_of[target as usize] = marker(2);
            }
            for call in [10u8, 29] {
                let code = [int(operand as i32), vec![call, 142, 4]].concat();
                if call == 10 {
                    list.push(calls(code, vec![marker(5); 3], list_of.clone()));
                } else {
                    list.push(calls(code, list_of.clone(), vec![marker(5); 3]));
                }
            }
        }
    }
    // Numbers that wrap to those of subroutines.
    for value in wrapping() {
        for count in [3usize, 300] {
            for call in [10u8, 29] {
                for shift in [0, 107] {
                    let code = [great(value.wrapping_sub(shift).max(-(1 << 30))), vec![call, 142, 4]].concat();
                    list.push(calls(code, vec![marker(1); count], vec![marker(2); count]));
                }
            }
        }
    }
    // Nesting: each subroutine calls the next and goes on behind the call.
    for depth in 1..=10usize {
        for call in [10u8, 29] {
            for ending in [vec![11], vec![14], vec![150, 22, 11], vec![]] {
                let mut subrs: Vec<Vec<u8>> = vec![];
                for i in 0..depth - 1 {
                    subrs.push([int(i as i32 + 1 - 107), vec![call, 139 + i as u8, 4, 11]].concat());
                }
                subrs.push(ending.clone());
                let code = [int(-107), vec![call, 149, 22, 14]].concat();
                list.push(calls(code, subrs.clone(), subrs));
            }
        }
    }
    // The end within subroutines, with nothing or something behind the calls.
    for behind in [vec![], vec![11], vec![14], vec![140, 22], vec![150]] {
        for outside in [vec![], vec![14], vec![140, 22], vec![140]] {
            for inner in [vec![14], vec![140, 22, 14], vec![14, 11], vec![14, 140, 22], vec![140, 14], vec![140, 141, 142, 143, 14]] {
                let two = [int(-106), vec![10], behind.clone()].concat();
                let code = [int(-107), vec![10], outside.clone()].concat();
                list.push(calls(code, vec![], vec![two, inner.clone()]));
            }
        }
    }
    for code in [vec![11], vec![140, 11], vec![140, 22, 11], vec![10], vec![29], vec![14, 140, 22], vec![14], vec![], vec![14, 14]] {
        list.push(calls(code, vec![marker(1)], vec![marker(2)]));
    }
    // Operands that are not integers.
    for fixed in [[255u8, 149, 0, 0x80], [255, 149, 0, 0], [255, 148, 255, 255]] {
        let code = [vec![255], fixed[..2].iter().map(|_| 255).collect::<Vec<u8>>(), vec![]].concat();
        let _ = code;
        let code = [vec![255], fixed.to_vec(), vec![10, 140, 22]].concat();
        list.push(calls(code, vec![marker(1)], vec![marker(2)]));
    }
    // Operands are passed, and a mask counts stems from all routines.
    for call in [10u8, 29] {
        let subrs = vec![vec![22, 11], vec![140, 141, 11], vec![140, 141, 142, 143, 18, 11], vec![19, 22, 11], vec![12, 10, 11]];
        for order in [[0, 1, 2], [1, 0, 2], [2, 3, 1], [3, 2, 3], [1, 4, 0], [1, 1, 4], [2, 2, 3]] {
            let mut code = vec![150];
            for i in order {
                code.extend(int(i - 107));
                code.push(call);
            }
            code.extend([22, 14]);
            list.push(calls(code, subrs.clone(), subrs.clone()));
        }
    }
    // Recursion without an end is an error within a bounded number of levels.
    for call in [10u8, 29] {
        let subr = vec![vec![32, call]];
        let mut case = calls(vec![32, call], subr.clone(), subr.clone());
        case.m = 1;
        list.push(case);
        let subrs = vec![vec![33, call, 11], vec![32, call, 11]];
        let mut case = calls(vec![32, call], subrs.clone(), subrs.clone());
        case.m = 1;
        list.push(case);
    }
    list
}

fn random_calls(rng: &mut Rng) -> Case {
    let count = rng.range(1, 4);
    let mut subrs = vec![];
    for i in 0..count {
        let mut code = vec![];
        for _ in 0..rng.below(3) {
            match rng.below(3) {
                // Only later ones, so that there is no recursion.
                0 if i + 1 < count => {
                    code.extend(int(rng.range(i + 1, count - 1) as i32 - 107));
                    code.push(*rng.pick(&[10u8, 29]));
                }
                1 => code.push(small(rng)),
                _ => code.extend([small(rng), *rng.pick(&[4u8, 22])]),
            }
        }
        code.extend(rng.pick(&[&[11u8][..], &[11], &[11], &[14], &[], &[11, 140, 22]]).to_vec());
        subrs.push(code);
    }
    let mut code = vec![];
    for _ in 0..rng.range(1, 4) {
        if rng.chance(3) {
            code.extend([small(rng), 22]);
        } else {
            code.extend(int(rng.below(count + 1) as i32 - 107));
            code.push(*rng.pick(&[10u8, 29]));
        }
    }
    if rng.chance(2) {
        code.push(14);
    }
    let mut other = subrs.clone();
    other.rotate_left(rng.below(2));
    if rng.chance(2) {
        other = subrs.clone();
    }
    // With rotated lists there may be recursion.
    calls(code, subrs, other)
}

fn run_cases() -> Vec<Case> {
    let mut list = vec![];
    let run = |code: Vec<u8>, one: Vec<Vec<u8>>, two: Vec<Vec<u8>>| Case { kind: "run".into(), n: 0, m: 0, data: code, one, two };
    for call in [10u8, 29] {
        let subr = vec![vec![32, call]];
        list.push(run(vec![32, call], subr.clone(), subr.clone()));
        let subr = vec![vec![139, 32, call, 11]];
        list.push(run(vec![32, call], subr.clone(), subr.clone()));
        for operand in [vec![255, 0x7f, 255, 0, 0], vec![255, 0x80, 0, 0, 0], vec![28, 0x7f, 255], vec![28, 0x80, 0]] {
            list.push(run([operand.clone(), vec![call]].concat(), vec![], vec![]));
            // Beyond the range of integers.
            let big = [operand.clone(), operand.clone(), vec![12, 24], operand, vec![12, 24, call]].concat();
            list.push(run(big, vec![vec![11]; 3], vec![vec![11]; 3]));
        }
        list.push(run([vec![28, 0, 0, 28, 0x7f, 255, 12, 24], vec![call]].concat(), vec![vec![]; 33900], vec![vec![]; 33900]));
        list.push(run([vec![28, 0x7f, 255], vec![call]].concat(), vec![vec![]; 33900], vec![vec![]; 33900]));
    }
    // The largest integers as a product: 32767 * 32767 * 2 and so on.
    let huge = vec![28, 0x7f, 0xff, 28, 0x7f, 0xff, 12, 24, 28, 0x7f, 0xff, 12, 24];
    for op in [29u8, 30] {
        for sign in [vec![], vec![12, 14]] {
            list.push(run([vec![140, 141, 142, 142], huge.clone(), sign.clone(), vec![12, op, 22]].concat(), vec![], vec![]));
            list.push(run([vec![140, 141, 142], huge.clone(), sign.clone(), vec![140, 12, op, 22]].concat(), vec![], vec![]));
            list.push(run([vec![140, 141, 142], huge.clone(), sign.clone(), huge.clone(), vec![12, op, 22]].concat(), vec![], vec![]));
        }
    }
    for value in wrapping() {
        for n in [0, 2, 4, 6] {
            for op in [29u8, 30] {
                list.push(run([vec![149; n], great(value), vec![12, op, 22]].concat(), vec![], vec![]));
                list.push(run([vec![149; n], great(value), vec![140, 12, op, 22]].concat(), vec![], vec![]));
                list.push(run([vec![149; n], vec![142], great(value), vec![12, op, 22]].concat(), vec![], vec![]));
                list.push(run([vec![149; n], great(value), vec![if op == 29 { 29 } else { 10 }, 22]].concat(), vec![vec![11]; 3], vec![vec![11]; 3]));
            }
        }
    }
    list.push(run([142, 139, 12, 12, 12, 29, 22].repeat(3), vec![], vec![]));
    for op in [29u8, 30] {
        // Infinity and no number.
        for value in [vec![140, 139, 12, 12], vec![139, 139, 12, 12], vec![138, 139, 12, 12], vec![138, 12, 26]] {
            list.push(run([vec![140, 141, 142], value.clone(), vec![12, op, 22]].concat(), vec![], vec![]));
            list.push(run([vec![140, 141, 142, 141], value.clone(), vec![12, op, 22]].concat(), vec![], vec![]));
            list.push(run([vec![140, 141, 142], value.clone(), vec![141, 12, op, 22]].concat(), vec![], vec![]));
            list.push(run([value, vec![10, 22]].concat(), vec![vec![11]], vec![vec![11]]));
        }
    }
    // Each operator on stacks of all small sizes.
    for code in 0..=255u8 {
        for n in 0..=14usize {
            let data: Vec<u8> = (0..n).map(|i| 138 + (i % 5) as u8).collect();
            list.push(run([data.clone(), vec![code, 140, 22]].concat(), vec![], vec![]));
            list.push(run([data, vec![12, code, 140, 22]].concat(), vec![], vec![]));
        }
    }
    // Long programs.
    list.push(run([139, 12, 18].repeat(300_000), vec![], vec![]));
    list.push(run([139, 139, 12, 10, 12, 18].repeat(150_000), vec![], vec![]));
    list.push(run([32, 10].repeat(150_000), vec![], vec![vec![11]]));
    list.push(run([vec![139; 300_000], vec![6]].concat(), vec![], vec![]));
    list.push(run([vec![139; 100_000], vec![28, 0x7f, 255, 28, 0x7f, 255, 12, 30, 6]].concat(), vec![], vec![]));
    list.push(run(vec![141, 140, 18, 19, 0].repeat(40), vec![], vec![]));
    list.push(run([vec![139; 400], vec![18, 19], vec![1; 25], vec![140, 22]].concat(), vec![], vec![]));
    list
}

fn random_run(rng: &mut Rng) -> Case {
    let piece = |rng: &mut Rng| -> Vec<u8> {
        let mut code = vec![];
        for _ in 0..rng.below(12) {
            match rng.below(6) {
                0 | 1 => code.extend(value_bytes(rng)),
                2 => code.extend([12, *rng.pick(ARITHMETIC)]),
                3 => code.extend(*rng.pick(PATHS)),
                4 => code.push(*rng.pick(&[10u8, 29, 11, 14, 19, 20, 32, 33, 34])),
                _ => code.push(rng.byte()),
            }
        }
        code
    };
    let data = piece(rng);
    let one = (0..rng.below(3)).map(|_| piece(rng)).collect();
    let two = (0..rng.below(3)).map(|_| piece(rng)).collect();
    Case { kind: "run".into(), n: 0, m: 0, data, one, two }
}

// ---------------------------------------------------------------- what may fail

fn fault_data(part: i64, rng: &mut Rng) -> Vec<u8> {
    match part {
        0 | 6 => font(rng, &SOUND),
        1 => index_of(&[vec![1, 2], vec![], vec![3]], 2),
        2 => {
            let mut data = vec![];
            for _ in 0..rng.range(1, 3) {
                for _ in 0..rng.range(1, 3) {
                    data.extend(rng.pick(&[vec![140], vec![247, 3], vec![28, 1, 2], vec![29, 1, 2, 3, 4], real(&[1, 10, 5])]).clone());
                }
                data.extend(rng.pick(&[vec![17], vec![12, 7], vec![15]]).clone());
            }
            data
        }
        3 => rng.pick(&[vec![140], vec![247, 3], vec![252, 9], vec![28, 1, 2], vec![29, 1, 2, 3, 4], real(&[1, 10, 5, 5, 5])]).clone(),
        4 => {
            let format = rng.below(3) as u8;
            charset_of(format, 4, rng)
        }
        5 => rng.pick(&[vec![0, 2, 5, 6], vec![1, 2, 3, 4, 5, 6], vec![0x80, 1, 4, 0, 9]]).clone(),
        7 => rng.pick(&[vec![0, 1, 2], vec![3, 0, 2, 0, 0, 1, 0, 1, 0, 0, 2]]).clone(),
        _ => index_of(&[b"one".to_vec(), b"two".to_vec()], 1),
    }
}

fn fault_cases() -> Vec<Case> {
    let mut list = vec![];
    let mut rng = Rng::new(5);
    for part in 0..=8 {
        for variant in 0..(if part == 0 { 6 } else { 8 }) {
            let data = fault_data(part, &mut rng);
            list.push(Case::new("partial", 0, part, data.clone()));
            for n in 0..(if part == 0 { 600 } else { 40 }) {
                list.push(Case::new("fault", n, part + 10 * ((n + variant) % 8), data.clone()));
            }
        }
    }
    list
}

fn random_fault(rng: &mut Rng) -> Case {
    let part = *rng.pick(&[0i64, 0, 0, 2, 2, 1, 3, 4, 5, 6, 7, 8]);
    let data = fault_data(part, rng);
    let n = rng.below(if part == 0 { 400 } else { 25 }) as i64;
    if rng.chance(20) {
        Case::new("partial", 0, part, data)
    } else {
        Case::new("fault", n, part + 10 * rng.below(8) as i64, data)
    }
}

fn safe_cases() -> Vec<Case> {
    let mut list = vec![];
    for glyphs in [0i64, 1, 2, 3, 255, 256, 257, 65535, 65536, 0xffffffff] {
        for data in [
            vec![], vec![0], vec![1], vec![2], vec![0, 0, 1], vec![1, 0, 1, 255], vec![2, 0, 1, 255, 255],
            vec![1, 0, 1, 255, 0, 1, 255], vec![2, 255, 255, 255, 255, 255, 255, 255, 255], vec![3, 0, 0, 0, 0],
            vec![30, 0x1f], vec![30, 0xdd], vec![29, 0x80, 0, 0, 0, 17], vec![140, 12], vec![0x80, 255, 1, 2],
            vec![0, 1, 1, 1, 0], vec![0, 1, 4, 0, 0, 0, 1, 255, 255, 255, 255], vec![0, 1, 1, 0, 0], vec![0, 1, 1, 2, 1, 9, 9],
            vec![0, 2, 1, 1, 3, 2, 9, 9, 9], vec![255, 255, 1, 1, 1, 1], vec![0, 1, 0, 1, 1], vec![0, 1, 5, 1, 1],
        ] {
            list.push(Case::new("safe_part", glyphs, 0, data.clone()));
            list.push(Case::new("safe_part", glyphs, 3, data));
        }
    }
    for glyphs in 0..=9 {
        list.push(Case::new("safe_part", glyphs, 0, vec![255; 20]));
    }
    let mut rng = Rng::new(23);
    for _ in 0..300 {
        let data = font(&mut rng, &ANY);
        list.push(Case::new("safe", 0, 0, data));
    }
    // A font without glyphs and a character set of each format.
    list
}

fn random_safe(rng: &mut Rng) -> Case {
    if rng.chance(3) {
        let mut data = match rng.below(4) {
            0 => random_index(rng),
            1 => random_dictionary(rng),
            2 => {
                let n = rng.below(12);
                rng.bytes(n)
            }
            _ => {
                let format = rng.below(3) as u8;
                let glyphs = rng.below(9);
                charset_of(format, glyphs, rng)
            }
        };
        if rng.chance(2) {
            mutate(rng, &mut data);
        }
        let n = *rng.pick(&[0, 1, 2, 3, 4, 5, 9, 100, 256, 65536]);
        Case::new("safe_part", n, 0, data)
    } else if rng.chance(6) {
        vast_case(rng, "safe", 0, &ANY)
    } else {
        let mut data = font(rng, &ANY);
        if rng.chance(2) {
            mutate(rng, &mut data);
        }
        let (data, at) = behind(rng, data);
        Case::new("safe", 0, at, data)
    }
}

// ---------------------------------------------------------------- by property

pub fn enumerated(property: &str) -> Vec<Case> {
    match property {
        "C01" => safe_cases(),
        "C02" => index_cases(),
        "C03" => number_cases(),
        "C04" => dictionary_cases(),
        "C05" => lookup_cases(),
        "C06" => charset_cases(),
        "C07" => member_cases(),
        "C08" => encoding_cases(),
        "C09" => string_cases(),
        "C10" => {
            let mut list = vec![];
            for n in 0..=5usize {
                list.push(Case::new("header", 0, 0, vec![1, 0, 4, 2, 9][..n].to_vec()));
                list.push(Case::new("count", 0, 0, vec![1, 0, 4, 2, 9][..n].to_vec()));
            }
            for size in 0..=10u8 {
                for count in [0u8, 1, 255] {
                    let mut data = vec![1, 2, size, 3];
                    data.extend(vec![count; 10]);
                    list.push(Case::new("count", 0, 0, data.clone()));
                    data.insert(0, 4);
                    list.push(Case::new("count", 0, 1, data));
                }
            }
            list.extend(many_cases(10));
            list
        }
        "C12" => many_cases(12),
        "C13" => {
            let mut list = mapping_cases();
            list.extend(many_cases(13));
            list
        }
        "C14" => with_nested(14, with_preludes(operand_cases())),
        "C15" => with_nested(15, with_preludes(arithmetic_cases())),
        "C16" => with_nested(16, with_preludes(path_cases(16))),
        "C17" => with_nested(17, with_preludes(mask_cases())),
        "C18" => with_nested(18, with_preludes(width_cases())),
        "C19" => call_cases(),
        "C20" => run_cases(),
        "C21" => fault_cases(),
        "C22" => names_cases(),
        _ => vec![],
    }
}

pub fn random(property: &str, rng: &mut Rng) -> Case {
    match property {
        "C01" => random_safe(rng),
        "C02" => random_index_case(rng),
        "C03" => {
            let mut data = random_number(rng);
            if rng.chance(8) {
                let n = data.len();
                data.truncate(n - 1);
            } else if rng.chance(3) {
                data.extend(rng.bytes(2));
            }
            Case::new("number", 0, 0, data)
        }
        "C04" => Case::new("dictionary", 0, 0, random_dictionary(rng)),
        "C05" => Case::new("lookup", rng.below(model::OPERATORS.len()) as i64, 0, random_dictionary(rng)),
        "C06" => random_charset_case(rng),
        "C07" => {
            if rng.chance(2) {
                let mut case = random_charset_case(rng);
                case.data.drain(..case.m as usize);
                case.m = 0;
                case.kind = "members".into();
                case
            } else {
                Case::new("member", rng.below(65536) as i64, rng.below(3) as i64, vec![])
            }
        }
        "C08" => {
            let mut case = random_encoding_case(rng);
            if rng.chance(3) {
                case.data.drain(..case.m as usize);
                case.m = 0;
                case.kind = "encodings_get".into();
            }
            case
        }
        "C09" => {
            if rng.chance(3) {
                let bits = rng.next() as u32;
                if rng.chance(2) {
                    Case::new("string_id", bits as i32 as i64, 0, vec![])
                } else {
                    Case::new("string_id", bits as i64, 1, vec![])
                }
            } else {
                Case::new("string", rng.range(380, 400) as i64, 0, random_objects(rng))
            }
        }
        "C10" => {
            if rng.chance(6) {
                let data = font(rng, &SOUND);
                let (data, at) = behind(rng, data);
                Case::new("count", 0, at, data)
            } else {
                font_case(rng, 10, &LAYOUT)
            }
        }
        "C11" => {
            let mut data = font(rng, &ANY);
            if rng.chance(5) {
                let near = *rng.pick(&[1i64 << 8, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 40, 1 << 53, 1 << 62]);
                return Case::new("far", near + rng.below(9) as i64 - 4, 0, data);
            }
            let n = *rng.pick(&[1usize, 2, 3, 7, 64, 300]);
            data.splice(0..0, rng.bytes(n));
            Case::new("shifted", 0, n as i64, data)
        }
        "C12" => font_case(rng, 12, &PRIVATE),
        "C13" => {
            if rng.chance(4) {
                let glyphs = rng.range(0, 6);
                let mut data = random_mapping(rng, glyphs);
                if rng.chance(4) {
                    mutate(rng, &mut data);
                }
                Case::new("mapping", glyphs as i64, 0, data)
            } else {
                let wish = if rng.chance(5) { Wish { cid: None, ..CID } } else { CID };
                font_case(rng, 13, &wish)
            }
        }
        "C14" => {
            let case = random_operands_program(rng);
            perhaps_nested(rng, case)
        }
        "C15" => {
            let case = random_arithmetic(rng);
            perhaps_nested(rng, case)
        }
        "C16" => {
            let case = random_paths(rng, 16);
            perhaps_nested(rng, case)
        }
        "C17" => {
            let case = random_masks(rng);
            perhaps_nested(rng, case)
        }
        "C18" => {
            let case = random_width(rng);
            perhaps_nested(rng, case)
        }
        "C19" => random_calls(rng),
        "C20" => {
            let case = random_run(rng);
            perhaps_nested(rng, case)
        }
        "C21" => random_fault(rng),
        _ => {
            if rng.chance(2) {
                Case::new("names", 0, 0, random_objects(rng))
            } else {
                let mut objects = vec![];
                for _ in 0..rng.below(4) {
                    objects.push(random_dictionary(rng));
                }
                let size = size_for(rng, &objects);
                Case::new("dictionaries", rng.below(5) as i64, 0, index_of(&objects, size))
            }
        }
    }
}

pub fn rule(property: &str) -> &'static str {
    match property {
        "C01" => "malformed parts, and font sets with spoiled operands and mutated bytes; any panic or overflow counts",
        "C02" => "indices of all small shapes and offset sizes, with changed offsets and truncated data",
        "C03" => "all first bytes with boundary values behind them, and streams of nibbles",
        "C04" => "all operator codes, repeated operators and truncated dictionaries",
        "C05" => "all operators, absent and with up to three operands",
        "C06" => "character sets of all formats for up to nine glyphs and at boundaries, and one glyph more or less",
        "C07" => "all predefined character sets, and those given by data, with all identifiers",
        "C08" => "all formats with boundary counts, and all predefined encodings with all codes",
        "C09" => "all standard identifiers, those at boundaries, and all 16-bit integers",
        "C10" => "font sets of one to three fonts in any order and with gaps up to offsets of 2^31, with spoiled operands",
        "C11" => "font sets alone and behind a prefix of up to 2^62 bytes",
        "C12" => "font sets with spoiled operands of the private and subroutine operators",
        "C13" => "font sets keyed by character identifiers with spoiled operands, and mappings of all small sizes",
        "C14" => "all encodings of operands at boundaries, and all operator codes",
        "C15" => "all stack operators on small and deep stacks, all small rolls, and random programs, flat and in subroutines, alone and behind hints, masks and moves",
        "C16" => "each path and stem operator with up to 65544 operands, flat and in subroutines, alone and behind hints, masks and moves",
        "C17" => "masks for up to 65544 stems, declared explicitly and implicitly, complete and truncated, flat and in subroutines, alone and behind hints, masks and moves",
        "C18" => "each clearing operator with up to 65544 operands, and pairs of them, flat and in subroutines, alone and behind hints, masks and moves",
        "C19" => "all biases at their boundaries, nesting up to ten levels, ends and returns everywhere",
        "C20" => "each operator on small stacks, extreme operands, endless recursion, long programs, random bytes",
        "C21" => "a failure of each operation of the stream in turn, for all parts",
        _ => "names with valid and invalid text, and indices of dictionaries",
    }
}

