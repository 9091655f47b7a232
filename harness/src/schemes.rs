//! The nine scheme variants by number.
use material_color_utilities_rs::{
    dynamiccolor::{dynamic_scheme::DynamicScheme, variant::Variant},
    hct::hct::Hct,
    scheme::{
        scheme_content::SchemeContent, scheme_expressive::SchemeExpressive,
        scheme_fidelity::SchemeFidelity, scheme_fruit_salad::SchemeFruitSalad,
        scheme_monochrome::SchemeMonochrome, scheme_neutral::SchemeNeutral,
        scheme_rainbow::SchemeRainbow, scheme_tonal_spot::SchemeTonalSpot,
        scheme_vibrant::SchemeVibrant,
    },
};

pub const NAMES: [&str; 9] = [
    "monochrome", "neutral", "tonal_spot", "vibrant", "expressive", "content", "fidelity", "rainbow", "fruit_salad",
];
pub const MONO: u8 = 0;
pub const EXPRESSIVE: u8 = 4;
pub const CONTENT: u8 = 5;
pub const FIDELITY: u8 = 6;

pub fn variant(v: u8) -> Variant {
    match v {
        0 => Variant::Monochrome,
        1 => Variant::Neutral,
        2 => Variant::TonalSpot,
        3 => Variant::Vibrant,
        4 => Variant::Expressive,
        5 => Variant::Content,
        6 => Variant::Fidelity,
        7 => Variant::Rainbow,
        _ => Variant::FruitSalad,
    }
}

pub fn scheme(v: u8, argb: i64, dark: bool, level: f64) -> DynamicScheme {
    let h = Hct::from_int(argb);
    match v {
        0 => SchemeMonochrome::new(h, dark, level).dynamic_scheme,
        1 => SchemeNeutral::new(h, dark, level).dynamic_scheme,
        2 => SchemeTonalSpot::new(h, dark, level).dynamic_scheme,
        3 => SchemeVibrant::new(h, dark, level).dynamic_scheme,
        4 => SchemeExpressive::new(h, dark, level).dynamic_scheme,
        5 => SchemeContent::new(h, dark, level).dynamic_scheme,
        6 => SchemeFidelity::new(h, dark, level).dynamic_scheme,
        7 => SchemeRainbow::new(h, dark, level).dynamic_scheme,
        _ => SchemeFruitSalad::new(h, dark, level).dynamic_scheme,
    }
}
