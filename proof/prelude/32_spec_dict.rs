// The operators of dictionaries (TN5176, tables 9, 10 and 23), by code, and their default operands.
verus! {

pub mod spec_dict {
    use vstd::prelude::*;
    use crate::compact1::number::Number;
    use crate::compact1::operation::Operator;

    pub open spec fn escaped(second: int) -> int { 12 * 256 + second }

    pub open spec fn dict_operator(code: int) -> Option<Operator> {
        if code == 0 { Some(Operator::Version) }
        else if code == 1 { Some(Operator::Notice) }
        else if code == 2 { Some(Operator::FullName) }
        else if code == 3 { Some(Operator::FamilyName) }
        else if code == 4 { Some(Operator::Weight) }
        else if code == 5 { Some(Operator::FontBBox) }
        else if code == 6 { Some(Operator::BlueValues) }
        else if code == 7 { Some(Operator::OtherBlues) }
        else if code == 8 { Some(Operator::FamilyBlues) }
        else if code == 9 { Some(Operator::FamilyOtherBlues) }
        else if code == 10 { Some(Operator::StdHW) }
        else if code == 11 { Some(Operator::StdVW) }
        else if code == 13 { Some(Operator::UniqueID) }
        else if code == 14 { Some(Operator::XUID) }
        else if code == 15 { Some(Operator::CharSet) }
        else if code == 16 { Some(Operator::Encoding) }
        else if code == 17 { Some(Operator::CharStrings) }
        else if code == 18 { Some(Operator::Private) }
        else if code == 19 { Some(Operator::Subrs) }
        else if code == 20 { Some(Operator::DefaultWidthX) }
        else if code == 21 { Some(Operator::NominalWidthX) }
        else if code == escaped(0) { Some(Operator::Copyright) }
        else if code == escaped(1) { Some(Operator::IsFixedPitch) }
        else if code == escaped(2) { Some(Operator::ItalicAngle) }
        else if code == escaped(3) { Some(Operator::UnderlinePosition) }
        else if code == escaped(4) { Some(Operator::UnderlineThickness) }
        else if code == escaped(5) { Some(Operator::PaintType) }
        else if code == escaped(6) { Some(Operator::CharStringType) }
        else if code == escaped(7) { Some(Operator::FontMatrix) }
        else if code == escaped(8) { Some(Operator::StrokeWidth) }
        else if code == escaped(9) { Some(Operator::BlueScale) }
        else if code == escaped(10) { Some(Operator::BlueShift) }
        else if code == escaped(11) { Some(Operator::BlueFuzz) }
        else if code == escaped(12) { Some(Operator::StemSnapH) }
        else if code == escaped(13) { Some(Operator::StemSnapV) }
        else if code == escaped(14) { Some(Operator::ForceBold) }
        else if code == escaped(17) { Some(Operator::LanguageGroup) }
        else if code == escaped(18) { Some(Operator::ExpansionFactor) }
        else if code == escaped(19) { Some(Operator::InitialRandomSeed) }
        else if code == escaped(20) { Some(Operator::SyntheticBase) }
        else if code == escaped(21) { Some(Operator::PostScript) }
        else if code == escaped(22) { Some(Operator::BaseFontName) }
        else if code == escaped(23) { Some(Operator::BaseFontBlend) }
        else if code == escaped(30) { Some(Operator::ROS) }
        else if code == escaped(31) { Some(Operator::CIDFontVersion) }
        else if code == escaped(32) { Some(Operator::CIDFontRevision) }
        else if code == escaped(33) { Some(Operator::CIDFontType) }
        else if code == escaped(34) { Some(Operator::CIDCount) }
        else if code == escaped(35) { Some(Operator::UIDBase) }
        else if code == escaped(36) { Some(Operator::FDArray) }
        else if code == escaped(37) { Some(Operator::FDSelect) }
        else if code == escaped(38) { Some(Operator::FontName) }
        else { None }
    }

    pub open spec fn dict_default(operator: Operator) -> Option<Seq<Number>> {
        match operator {
            Operator::IsFixedPitch | Operator::ItalicAngle | Operator::PaintType | Operator::StrokeWidth
            | Operator::CharSet | Operator::Encoding | Operator::ForceBold | Operator::LanguageGroup
            | Operator::InitialRandomSeed | Operator::DefaultWidthX | Operator::NominalWidthX
            | Operator::CIDFontVersion | Operator::CIDFontRevision | Operator::CIDFontType => Some(seq![Number::Integer(0)]),
            Operator::UnderlinePosition => Some(seq![Number::Integer(-100i32)]),
            Operator::UnderlineThickness => Some(seq![Number::Integer(50)]),
            Operator::CharStringType => Some(seq![Number::Integer(2)]),
            Operator::FontMatrix => Some(seq![
                Number::Real(0.001f32), Number::Real(0.0f32), Number::Real(0.0f32),
                Number::Real(0.001f32), Number::Real(0.0f32), Number::Real(0.0f32),
            ]),
            Operator::FontBBox => Some(seq![Number::Integer(0), Number::Integer(0), Number::Integer(0), Number::Integer(0)]),
            Operator::BlueScale => Some(seq![Number::Real(0.039625f32)]),
            Operator::BlueShift => Some(seq![Number::Integer(7)]),
            Operator::BlueFuzz => Some(seq![Number::Integer(1)]),
            Operator::ExpansionFactor => Some(seq![Number::Real(0.06f32)]),
            Operator::CIDCount => Some(seq![Number::Integer(8720)]),
            _ => None,
        }
    }
}

} // verus!
