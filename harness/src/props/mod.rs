//! The registry of properties.
use crate::engine::Ctx;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&Ctx),
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

pub mod cam;
pub mod color;
pub mod contrast;
pub mod dynamic;
pub mod palettes;
pub mod quantize;
pub mod score;
pub mod temperature;

pub const ALL: &[Prop] = &[
    color::C01, color::C02, color::C03, cam::C04, cam::C05, cam::C06, color::C07, color::C08, color::C09, color::C10,
    contrast::C11, contrast::C12, contrast::C13, contrast::C14,
    dynamic::C15, dynamic::C16, dynamic::C17, dynamic::C18, dynamic::C19, dynamic::C20,
    palettes::C21, palettes::C22, palettes::C23, palettes::C24, palettes::C25,
    temperature::C26, temperature::C27, score::C28,
    quantize::C29, quantize::C30, quantize::C31, quantize::C32, quantize::C33,
];
