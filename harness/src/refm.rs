//! Reference models, written from the published formulas (sRGB, CIE XYZ/Lab,
//! CAM16, WCAG) and sharing no code with the crate under test.

use std::f64::consts::PI;

pub type V3 = [f64; 3];

pub const OPAQUE: i64 = 0xff000000;

pub fn rgb(argb: i64) -> [i64; 3] {
    [(argb / 0x10000).rem_euclid(256), (argb / 0x100).rem_euclid(256), argb.rem_euclid(256)]
}
pub fn pack(r: i64, g: i64, b: i64) -> i64 {
    OPAQUE + r * 0x10000 + g * 0x100 + b
}

/// sRGB transfer function, 8-bit channel -> linear 0..100.
pub fn lin(c: f64) -> f64 {
    let n = c / 255.0;
    100.0 * if n <= 0.040449936 { n / 12.92 } else { ((n + 0.055) / 1.055).powf(2.4) }
}
/// Linear 0..100 -> unrounded 8-bit channel.
pub fn delin(l: f64) -> f64 {
    let n = l / 100.0;
    255.0 * if n <= 0.0031308 { n * 12.92 } else { 1.055 * n.powf(1.0 / 2.4) - 0.055 }
}

pub const SRGB_TO_XYZ: [V3; 3] = [
    [0.41233895, 0.35762064, 0.18051042],
    [0.2126, 0.7152, 0.0722],
    [0.01932141, 0.11916382, 0.95034478],
];
pub const D65: V3 = [95.047, 100.0, 108.883];

pub fn mul(m: &[V3; 3], v: V3) -> V3 {
    [0, 1, 2].map(|i| m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2])
}
pub fn inv(m: &[V3; 3]) -> [V3; 3] {
    let d = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
        - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            let (a, b) = ((j + 1) % 3, (j + 2) % 3);
            let (c, e) = ((i + 1) % 3, (i + 2) % 3);
            r[i][j] = (m[a][c] * m[b][e] - m[a][e] * m[b][c]) / d;
        }
    }
    r
}

pub fn xyz_to_srgb() -> &'static [V3; 3] {
    static M: std::sync::OnceLock<[V3; 3]> = std::sync::OnceLock::new();
    M.get_or_init(|| inv(&SRGB_TO_XYZ))
}
pub fn m16_inv() -> &'static [V3; 3] {
    static M: std::sync::OnceLock<[V3; 3]> = std::sync::OnceLock::new();
    M.get_or_init(|| inv(&M16))
}

/// |a - b| within `abs` or `rel` of the larger magnitude; NaN never is.
pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    let d = (a - b).abs();
    d <= abs || d <= rel * a.abs().max(b.abs())
}

pub fn linrgb(argb: i64) -> V3 {
    rgb(argb).map(|c| lin(c as f64))
}
pub fn xyz(argb: i64) -> V3 {
    mul(&SRGB_TO_XYZ, linrgb(argb))
}

const E: f64 = 216.0 / 24389.0;
const K: f64 = 24389.0 / 27.0;
pub fn lab_f(t: f64) -> f64 {
    if t > E {
        t.cbrt()
    } else {
        (K * t + 16.0) / 116.0
    }
}
pub fn lab_inv(f: f64) -> f64 {
    if f * f * f > E {
        f * f * f
    } else {
        (116.0 * f - 16.0) / K
    }
}
pub fn lab_of_xyz(x: V3) -> V3 {
    let f = [0, 1, 2].map(|i| lab_f(x[i] / D65[i]));
    [116.0 * f[1] - 16.0, 500.0 * (f[0] - f[1]), 200.0 * (f[1] - f[2])]
}
pub fn lab(argb: i64) -> V3 {
    lab_of_xyz(xyz(argb))
}
/// Unrounded 8-bit channels of a Lab color.
pub fn rgb_of_lab(l: f64, a: f64, b: f64) -> V3 {
    let fy = (l + 16.0) / 116.0;
    let f = [fy + a / 500.0, fy, fy - b / 200.0];
    let x = [0, 1, 2].map(|i| lab_inv(f[i]) * D65[i]);
    mul(xyz_to_srgb(), x).map(delin)
}
pub fn y_of_l(l: f64) -> f64 {
    100.0 * lab_inv((l + 16.0) / 116.0)
}
pub fn l_of_y(y: f64) -> f64 {
    116.0 * lab_f(y / 100.0) - 16.0
}
pub fn tone(argb: i64) -> f64 {
    l_of_y(xyz(argb)[1])
}

/// Degrees in [0, 360).
pub fn deg(x: f64) -> f64 {
    let r = x.rem_euclid(360.0);
    if r >= 360.0 {
        0.0
    } else {
        r
    }
}
/// Distance on the circle, in degrees.
pub fn dh(a: f64, b: f64) -> f64 {
    let d = deg(a - b);
    d.min(360.0 - d)
}

pub fn contrast(a: f64, b: f64) -> f64 {
    let (ya, yb) = (y_of_l(a.clamp(0.0, 100.0)), y_of_l(b.clamp(0.0, 100.0)));
    (ya.max(yb) + 5.0) / (ya.min(yb) + 5.0)
}

// ------------------------------------------------------------------ CAM16

/// Viewing conditions, from the CAM16 definition.
#[derive(Clone, Debug)]
pub struct Vc {
    pub n: f64,
    pub aw: f64,
    pub nbb: f64,
    pub c: f64,
    pub nc: f64,
    pub d: V3,
    pub fl: f64,
    pub z: f64,
}

pub const M16: [V3; 3] = [
    [0.401288, 0.650173, -0.051461],
    [-0.250268, 1.204414, 0.045854],
    [-0.002079, 0.048952, 0.953127],
];

fn adapt(fl: f64, x: f64) -> f64 {
    let p = (fl * x.abs() / 100.0).powf(0.42);
    let v = 400.0 * p / (p + 27.13);
    if x < 0.0 {
        -v
    } else {
        v
    }
}

pub fn default_la() -> f64 {
    200.0 / PI * y_of_l(50.0) / 100.0
}

impl Vc {
    pub fn make(wp: V3, la: f64, bg_l: f64, surround: f64, discount: bool) -> Vc {
        let bg_l = bg_l.max(0.1);
        let w = mul(&M16, wp);
        let f = 0.8 + surround / 10.0;
        // c interpolates 0.525 (dark) - 0.59 (dim) - 0.69 (average)
        let c = if surround >= 1.0 {
            0.59 + (0.69 - 0.59) * (surround - 1.0)
        } else {
            0.525 + (0.59 - 0.525) * surround
        };
        let d = if discount { 1.0 } else { (f * (1.0 - (-(la + 42.0) / 92.0).exp() / 3.6)).clamp(0.0, 1.0) };
        let dd = w.map(|x| d * 100.0 / x + 1.0 - d);
        let k = 1.0 / (5.0 * la + 1.0);
        let k4 = k.powi(4);
        let fl = k4 * la + 0.1 * (1.0 - k4).powi(2) * (5.0 * la).cbrt();
        let n = y_of_l(bg_l) / wp[1];
        let z = 1.48 + n.sqrt();
        let nbb = 0.725 * n.powf(-0.2);
        let a = [0, 1, 2].map(|i| adapt(fl, dd[i] * w[i]));
        let aw = (2.0 * a[0] + a[1] + a[2] / 20.0) * nbb;
        Vc { n, aw, nbb, c, nc: f, d: dd, fl, z }
    }
    pub fn default() -> Vc {
        Vc::make(D65, default_la(), 50.0, 2.0, false)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Cam {
    pub h: f64,
    pub c: f64,
    pub j: f64,
    pub q: f64,
    pub m: f64,
    pub s: f64,
    pub ucs: V3,
}

fn eccentricity(h: f64) -> f64 {
    0.25 * ((h.to_radians() + 2.0).cos() + 3.8)
}

pub fn cam_of_xyz(v: V3, vc: &Vc) -> Cam {
    let rgb = mul(&M16, v);
    let a = [0, 1, 2].map(|i| adapt(vc.fl, vc.d[i] * rgb[i]));
    let ca = a[0] - 12.0 * a[1] / 11.0 + a[2] / 11.0;
    let cb = (a[0] + a[1] - 2.0 * a[2]) / 9.0;
    let h = deg(cb.atan2(ca).to_degrees());
    let big_a = (2.0 * a[0] + a[1] + a[2] / 20.0) * vc.nbb;
    let j = 100.0 * (big_a / vc.aw).powf(vc.c * vc.z);
    let q = 4.0 / vc.c * (j / 100.0).sqrt() * (vc.aw + 4.0) * vc.fl.powf(0.25);
    let t = 50000.0 / 13.0 * vc.nc * vc.nbb * eccentricity(h) * ca.hypot(cb)
        / (a[0] + a[1] + 1.05 * a[2] + 0.305);
    let alpha = t.powf(0.9) * (1.64 - 0.29f64.powf(vc.n)).powf(0.73);
    cam_of_jch(j, alpha * (j / 100.0).sqrt(), h, vc, Some((q, alpha)))
}

fn cam_of_jch(j: f64, c: f64, h: f64, vc: &Vc, qa: Option<(f64, f64)>) -> Cam {
    let (q, alpha) = qa.unwrap_or_else(|| {
        (
            4.0 / vc.c * (j / 100.0).sqrt() * (vc.aw + 4.0) * vc.fl.powf(0.25),
            if j == 0.0 { 0.0 } else { c / (j / 100.0).sqrt() },
        )
    });
    let m = c * vc.fl.powf(0.25);
    let s = 50.0 * (vc.c * alpha / (vc.aw + 4.0)).sqrt();
    let mm = (1.0 + 0.0228 * m).ln() / 0.0228;
    let r = h.to_radians();
    Cam { h, c, j, q, m, s, ucs: [1.7 * j / (1.0 + 0.007 * j), mm * r.cos(), mm * r.sin()] }
}
pub fn cam_jch(j: f64, c: f64, h: f64, vc: &Vc) -> Cam {
    cam_of_jch(j, c, h, vc, None)
}
pub fn jch_of_ucs(u: V3, vc: &Vc) -> V3 {
    let j = u[0] / (1.7 - 0.007 * u[0]);
    let m = ((u[1].hypot(u[2]) * 0.0228).exp() - 1.0) / 0.0228;
    [j, m / vc.fl.powf(0.25), deg(u[2].atan2(u[1]).to_degrees())]
}
pub fn cam(argb: i64, vc: &Vc) -> Cam {
    cam_of_xyz(xyz(argb), vc)
}

/// XYZ of (J, C, h) in `vc`.
pub fn xyz_of_jch(j: f64, c: f64, h: f64, vc: &Vc) -> V3 {
    if j <= 0.0 {
        return [0.0; 3];
    }
    let alpha = c / (j / 100.0).sqrt();
    let t = (alpha / (1.64 - 0.29f64.powf(vc.n)).powf(0.73)).powf(1.0 / 0.9);
    let p1 = 50000.0 / 13.0 * vc.nc * vc.nbb * eccentricity(h);
    let p2 = vc.aw * (j / 100.0).powf(1.0 / (vc.c * vc.z)) / vc.nbb;
    let (hs, hc) = h.to_radians().sin_cos();
    let gamma = 23.0 * (p2 + 0.305) * t / (23.0 * p1 + 11.0 * t * hc + 108.0 * t * hs);
    let (a, b) = (gamma * hc, gamma * hs);
    let ra = [
        (460.0 * p2 + 451.0 * a + 288.0 * b) / 1403.0,
        (460.0 * p2 - 891.0 * a - 261.0 * b) / 1403.0,
        (460.0 * p2 - 220.0 * a - 6300.0 * b) / 1403.0,
    ];
    let mut v = [0.0; 3];
    for i in 0..3 {
        let m = ra[i].abs();
        let base = (27.13 * m / (400.0 - m)).max(0.0);
        v[i] = ra[i].signum() * 100.0 / vc.fl * base.powf(1.0 / 0.42) / vc.d[i];
    }
    mul(m16_inv(), v)
}

pub fn linrgb_of_jch(j: f64, c: f64, h: f64, vc: &Vc) -> V3 {
    mul(xyz_to_srgb(), xyz_of_jch(j, c, h, vc))
}

/// Linear RGB of the color with CAM16 hue `h`, chroma `c` and luminance `y`
/// (which may lie outside of the gamut), by bisection over J. None when no J
/// reaches that luminance (the color is far outside of any gamut).
pub fn linrgb_of_hcy(h: f64, c: f64, y: f64, vc: &Vc) -> Option<V3> {
    let (mut lo, mut hi) = (0.0, 200.0);
    for _ in 0..52 {
        let mid = 0.5 * (lo + hi);
        if xyz_of_jch(mid, c, h, vc)[1] < y {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    let x = xyz_of_jch(0.5 * (lo + hi), c, h, vc);
    if !(x[1] - y).is_finite() || (x[1] - y).abs() > 1e-6 * (1.0 + y) {
        return None;
    }
    Some(mul(xyz_to_srgb(), x))
}

pub fn in_gamut(l: Option<V3>, slack: f64) -> bool {
    match l {
        None => false,
        Some(l) => l.iter().all(|x| *x >= -slack && *x <= 100.0 + slack),
    }
}

/// The ideal (unquantised) answer to "hue h, chroma at most c, tone t":
/// linear RGB, the chroma reached, and whether the request was in gamut, by
/// bisection over chroma.
pub fn ideal_hct(h: f64, c: f64, t: f64, vc: &Vc) -> (V3, f64, bool) {
    let y = y_of_l(t);
    let full = linrgb_of_hcy(h, c, y, vc);
    if in_gamut(full, 0.0) {
        return (full.unwrap(), c, true);
    }
    let (mut lo, mut hi) = (0.0, c);
    if t > 98.5 {
        // Close to white the gamut section of a hue need not reach down to
        // chroma 0 (grays have a small chroma of their own there).
        let top = c.min(90.0);
        hi = top;
        let mut found = false;
        for k in (0..90).rev() {
            let x = top * k as f64 / 90.0;
            if in_gamut(linrgb_of_hcy(h, x, y, vc), 1e-9) {
                lo = x;
                found = true;
                break;
            }
            hi = x;
        }
        if !found {
            return ([y; 3], -1.0, false);
        }
    }
    for _ in 0..40 {
        let mid = 0.5 * (lo + hi);
        if in_gamut(linrgb_of_hcy(h, mid, y, vc), 1e-9) {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    (linrgb_of_hcy(h, lo, y, vc).unwrap_or([y; 3]), lo, false)
}
