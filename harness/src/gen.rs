//! Generators. Every domain is a mixture of uniform values, documented
//! boundaries, and values taken from the numeric literals of the code under
//! test (read from /repo/src at run time), which is where branches flip.
//! The literals only steer inputs: no oracle reads them.

use crate::refm::{deg, pack};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use std::sync::OnceLock;

pub type S<T> = BoxedStrategy<T>;

fn walk(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            if p.file_name().map(|n| n != "tests").unwrap_or(false) {
                walk(&p, out);
            }
        } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
            out.push(p);
        }
    }
}

fn scan(text: &str, nums: &mut Vec<f64>) {
    for line in text.lines() {
        let line = match line.find("//") {
            Some(i) => &line[..i],
            None => line,
        };
        let b = line.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let start_ok = i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_' || b[i - 1] == b'.');
            if !(b[i].is_ascii_digit() && start_ok) {
                i += 1;
                continue;
            }
            let s = i;
            if b[i] == b'0' && i + 1 < b.len() && (b[i + 1] | 32) == b'x' {
                i += 2;
                let h = i;
                while i < b.len() && (b[i].is_ascii_hexdigit() || b[i] == b'_') {
                    i += 1;
                }
                let t: String = line[h..i].chars().filter(|c| *c != '_').collect();
                if let Ok(v) = u64::from_str_radix(&t, 16) {
                    nums.push(v as f64);
                }
                continue;
            }
            while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'_' || (b[i] == b'.' && i + 1 < b.len() && b[i + 1].is_ascii_digit())) {
                i += 1;
            }
            let mut e = i;
            if i < b.len() && (b[i] | 32) == b'e' {
                let mut k = i + 1;
                if k < b.len() && (b[k] == b'-' || b[k] == b'+') {
                    k += 1;
                }
                let k0 = k;
                while k < b.len() && b[k].is_ascii_digit() {
                    k += 1;
                }
                if k > k0 {
                    e = k;
                    i = k;
                }
            }
            let t: String = line[s..e].chars().filter(|c| *c != '_').collect();
            let frac = t.split('.').nth(1).map(|f| f.len()).unwrap_or(0);
            if frac <= 6 {
                if let Ok(v) = t.parse::<f64>() {
                    nums.push(v);
                }
            }
            i = i.max(s + 1);
        }
    }
}

/// Numeric literals per file of the code under test.
fn mined() -> &'static Vec<(String, Vec<f64>)> {
    static L: OnceLock<Vec<(String, Vec<f64>)>> = OnceLock::new();
    L.get_or_init(|| {
        let root = std::path::Path::new("/repo/src");
        let mut fs = Vec::new();
        walk(root, &mut fs);
        let mut out = Vec::new();
        for f in fs {
            if let Ok(t) = std::fs::read_to_string(&f) {
                let mut nums = Vec::new();
                scan(&t, &mut nums);
                nums.sort_by(|a, b| a.partial_cmp(b).unwrap());
                out.push((f.strip_prefix(root).unwrap_or(&f).display().to_string(), nums));
            }
        }
        out
    })
}

/// Numeric literals of the code under test.
pub fn lits() -> &'static Vec<f64> {
    static L: OnceLock<Vec<f64>> = OnceLock::new();
    L.get_or_init(|| {
        let mut nums = vec![0.0, 1.0, 50.0, 100.0, 360.0];
        for (_, v) in mined() {
            nums.extend(v);
        }
        nums.sort_by(|a, b| a.partial_cmp(b).unwrap());
        nums.dedup();
        nums
    })
}

/// The literals as a text, one file per line: the form of `literals.txt`.
pub fn snapshot() -> String {
    let mut s = String::new();
    for (f, v) in mined() {
        s.push_str(f);
        for x in v {
            s.push_str(&format!(" {x}"));
        }
        s.push('\n');
    }
    s
}

/// Literals that the code has more or less often, in some file, than when the
/// snapshot was taken: where the code was edited, inputs are worth trying. No
/// oracle looks at them, and none of them means that anything is wrong.
pub fn novel() -> &'static Vec<f64> {
    static L: OnceLock<Vec<f64>> = OnceLock::new();
    L.get_or_init(|| {
        let mut count: std::collections::BTreeMap<(String, u64), i64> = Default::default();
        for (f, v) in mined() {
            for x in v {
                *count.entry((f.clone(), x.to_bits())).or_default() += 1;
            }
        }
        for line in include_str!("../literals.txt").lines() {
            let mut it = line.split(' ');
            let f = it.next().unwrap_or("").to_string();
            for x in it.filter_map(|x| x.parse::<f64>().ok()) {
                *count.entry((f.clone(), x.to_bits())).or_default() -= 1;
            }
        }
        let mut v: Vec<f64> = count.iter().filter(|(_, n)| **n != 0).map(|((_, b), _)| f64::from_bits(*b)).collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.dedup();
        v
    })
}
fn novel_in(lo: f64, hi: f64) -> Vec<f64> {
    novel().iter().flat_map(|x| [*x, -*x]).filter(|x| *x >= lo && *x <= hi).collect()
}

fn lits_in(lo: f64, hi: f64) -> Vec<f64> {
    let mut v: Vec<f64> = lits().iter().copied().filter(|x| *x >= lo && *x <= hi).collect();
    if v.is_empty() {
        v.push(lo);
    }
    v
}

/// `base`, or (when there are any) a value near a novel literal.
pub fn with_novel(base: S<f64>, lo: f64, hi: f64) -> S<f64> {
    let n = novel_in(lo, hi);
    if n.is_empty() {
        return base;
    }
    let near = (select(n), nudge()).prop_map(move |(l, n)| (l + n).clamp(lo, hi));
    prop_oneof![3 => base, 1 => near].boxed()
}
/// A whole number in lo..=hi, more often one near a novel literal.
pub fn int(lo: i64, hi: i64) -> S<i64> {
    with_novel_int((lo..=hi).boxed(), lo, hi)
}
pub fn with_novel_int(base: S<i64>, lo: i64, hi: i64) -> S<i64> {
    let n: Vec<i64> = novel_in(lo as f64, hi as f64).into_iter().filter(|x| x.fract() == 0.0).map(|x| x as i64).collect();
    if n.is_empty() {
        return base;
    }
    let near = (select(n), -1i64..=1).prop_map(move |(l, d)| (l + d).clamp(lo, hi));
    prop_oneof![3 => base, 1 => near].boxed()
}
/// The color of a hue, chroma and tone, gray if there is none.
pub fn hct_color(h: f64, c: f64, t: f64) -> i64 {
    let gray = {
        let v = (t * 2.55).clamp(0.0, 255.0) as u8;
        rgb_argb(v, v, v)
    };
    crate::engine::guarded(|| material_color_utilities_rs::hct::hct::Hct::from(h, c, t).to_int()).map(|c| 0xff000000 | (c & 0xffffff)).unwrap_or(gray)
}

/// A stream of pseudo-random numbers, for long histories and large images that
/// would be unwieldy as generated lists.
pub struct Mix(pub u64);
impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}
/// How many steps a long history takes: usually a few hundred.
pub fn steps(hi: i64) -> S<u32> {
    with_novel_int(prop_oneof![2 => 2..=hi / 4, 1 => 2..=hi].boxed(), 2, hi * 2).prop_map(|n| n as u32).boxed()
}

/// Small offsets that straddle a threshold.
pub fn nudge() -> S<f64> {
    prop_oneof![
        4 => Just(0.0),
        1 => select(vec![1e-12, -1e-12, 1e-9, -1e-9, 1e-6, -1e-6, 1e-4, -1e-4, 1e-3, -1e-3]),
        2 => select(vec![0.01, -0.01, 0.05, -0.05, 0.1, -0.1, 0.25, -0.25, 0.4, -0.4, 0.499, -0.499, 0.5, -0.5, 1.0, -1.0]),
        2 => -1.0..1.0f64,
    ]
    .boxed()
}

/// A float in [lo, hi]: uniform, whole, or near a literal of the code.
pub fn real(lo: f64, hi: f64) -> S<f64> {
    let ls = lits_in(lo, hi);
    let near_lit = (select(ls), nudge()).prop_map(move |(l, n)| (l + n).clamp(lo, hi));
    let whole = ((lo.ceil() as i64)..=(hi.floor() as i64).max(lo.ceil() as i64)).prop_map(move |i| (i as f64).clamp(lo, hi));
    let base = prop_oneof![
        6 => (0.0..1.0f64).prop_map(move |u| lo + u * (hi - lo)),
        2 => whole,
        3 => near_lit,
        1 => select(vec![lo, hi, lo + (hi - lo) * 1e-9, hi - (hi - lo) * 1e-9]),
    ]
    .boxed();
    with_novel(base, lo, hi)
}

pub fn channel() -> S<u8> {
    let base = prop_oneof![
        6 => any::<u8>(),
        2 => select(vec![0u8, 255]),
        1 => select(vec![1u8, 2, 9, 10, 11, 12, 13, 127, 128, 253, 254]),
    ]
    .prop_map(|c| c as i64)
    .boxed();
    with_novel_int(base, 0, 255).prop_map(|c| c as u8).boxed()
}

pub fn rgb_argb(r: u8, g: u8, b: u8) -> i64 {
    pack(r as i64, g as i64, b as i64)
}

/// Opaque colors.
pub fn argb() -> S<i64> {
    let hex: Vec<i64> = {
        let mut v: Vec<i64> = lits()
            .iter()
            .filter(|x| **x >= 256.0 && **x < 4294967296.0 && x.fract() == 0.0)
            .map(|x| 0xff000000 | (*x as i64 & 0xffffff))
            .collect();
        v.push(0xff4285f4);
        v
    };
    let nh: Vec<i64> = novel().iter().filter(|x| **x >= 256.0 && **x < 4294967296.0 && x.fract() == 0.0).map(|x| 0xff000000 | (*x as i64 & 0xffffff)).collect();
    let base = prop_oneof![
        8 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(r, g, b)| rgb_argb(r, g, b)),
        6 => (channel(), channel(), channel()).prop_map(|(r, g, b)| rgb_argb(r, g, b)),
        2 => any::<u8>().prop_map(|v| rgb_argb(v, v, v)),
        2 => (any::<u8>(), 0u8..4, 0u8..4, 0u8..4).prop_map(|(v, a, b, c)| {
            rgb_argb(v.saturating_add(a), v.saturating_add(b), v.saturating_add(c))
        }),
        1 => (0u8..3, 0u8..3, 0u8..3).prop_map(|(r, g, b)| rgb_argb(r, g, b)),
        1 => (0u8..3, 0u8..3, 0u8..3).prop_map(|(r, g, b)| rgb_argb(255 - r, 255 - g, 255 - b)),
        1 => (select(hex), -2i64..=2).prop_map(|(h, d)| (h + d).clamp(0xff000000, 0xffffffff)),
        2 => (hue(), chroma(), tone()).prop_map(|(h, c, t)| hct_color(h, c, t)),
    ]
    .boxed();
    if novel().is_empty() {
        return base;
    }
    let targeted = (hue(), chroma(), tone()).prop_map(|(h, c, t)| hct_color(h, c, t));
    let near = if nh.is_empty() { Just(0xff4285f4).boxed() } else { (select(nh), -2i64..=2).prop_map(|(h, d)| (h + d).clamp(0xff000000, 0xffffffff)).boxed() };
    prop_oneof![6 => base, 2 => targeted, 1 => near].boxed()
}

/// Colors with any alpha.
pub fn argb_alpha() -> S<i64> {
    (argb(), prop_oneof![3 => Just(255i64), 1 => Just(0i64), 1 => Just(254i64), 3 => 0i64..=255])
        .prop_map(|(c, a)| (c & 0xffffff) | (a << 24))
        .boxed()
}

/// A hue in [0, 360).
pub fn hue() -> S<f64> {
    prop_oneof![
        8 => real(0.0, 360.0).prop_map(deg),
        1 => select(vec![0.0, -0.0, 1e-9, 0.25, 0.49, 0.5, 0.51, 359.0, 359.49, 359.5, 359.51, 359.75, 359.99, 359.999999]),
        1 => (select(lits_in(-720.0, 1080.0)), nudge()).prop_map(|(l, n)| deg(l + n)),
    ]
    .boxed()
}

pub fn chroma() -> S<f64> {
    prop_oneof![
        6 => real(0.0, 120.0),
        2 => real(0.0, 20.0),
        1 => 0.0..2.0f64,
        1 => real(100.0, 400.0),
        1 => select(vec![0.0, -0.0, 1e-5, 9.9e-5, 1.01e-4, 1e-3, 0.01, 0.1]),
    ]
    .boxed()
}

pub fn tone() -> S<f64> {
    prop_oneof![
        8 => real(0.0, 100.0),
        2 => (0i64..=100).prop_map(|t| t as f64),
        2 => 48.0..61.0f64,
        1 => 95.0..100.0f64,
        1 => 0.0..3.0f64,
        1 => select(vec![0.0, -0.0, 5e-5, 1.5e-4, 49.0, 49.49, 49.5, 50.0, 59.49, 59.5, 60.0, 99.9998, 99.99995, 100.0]),
    ]
    .boxed()
}

/// Contrast levels, in and a little beyond [-1, 1].
pub fn level() -> S<f64> {
    let base = prop_oneof![
        6 => -1.0..1.0f64,
        4 => select(vec![-1.0, -0.5, 0.0, -0.0, 0.5, 1.0]),
        2 => (select(vec![-1.0, -0.5, -0.25, 0.0, 0.25, 0.5, 0.75, 1.0]), nudge()).prop_map(|(a, n)| a + n * 0.1),
        1 => select(vec![-1e-9, 1e-9, -1.0 + 1e-9, 1.0 - 1e-9, 0.5 - 1e-9, 0.5 + 1e-9, -1.5, 1.5, 2.0, -2.0]),
        1 => (select(lits_in(0.0, 1.0)), any::<bool>(), nudge()).prop_map(|(l, s, n)| (if s { l } else { -l }) + n * 0.01),
    ]
    .boxed();
    let n = novel_in(-2.0, 2.0);
    if n.is_empty() {
        return base;
    }
    prop_oneof![3 => base, 1 => (select(n), nudge()).prop_map(|(l, n)| l + n * 0.1)].boxed()
}

/// Contrast ratios 1..=21.
pub fn ratio() -> S<f64> {
    prop_oneof![
        6 => real(1.0, 21.0),
        2 => select(vec![1.0, 1.5, 3.0, 4.5, 7.0, 11.0, 15.0, 20.9, 21.0]),
    ]
    .boxed()
}

/// Small steps from one input to the next, for functions that are asked about
/// neighbouring inputs in a row: which of the coordinates move (a bit mask) and
/// by how much.
pub type Steps = Vec<(u8, f64, f64, f64)>;
pub fn near_steps(max: usize) -> S<Steps> {
    let d = || (any::<bool>(), prop_oneof![2 => -6.0..0.4f64, 3 => -1.5..0.4f64]).prop_map(|(up, e)| if up { 10f64.powf(e) } else { -(10f64.powf(e)) });
    prop::collection::vec((1u8..8, d(), d(), d()), 1..=max).boxed()
}
/// The inputs that the steps visit, the start included.
pub fn visit(start: [f64; 3], steps: &Steps) -> Vec<[f64; 3]> {
    let mut at = start;
    let mut out = vec![at];
    for (mask, x, y, z) in steps {
        for (i, d) in [x, y, z].into_iter().enumerate() {
            if mask & (1 << i) != 0 {
                at[i] += d;
            }
        }
        out.push(at);
    }
    out
}
/// A color whose channels move by a level or a few.
pub fn near_argb(argb: i64, step: &(u8, f64, f64, f64)) -> i64 {
    let mut c = crate::refm::rgb(argb);
    for (i, d) in [step.1, step.2, step.3].into_iter().enumerate() {
        if step.0 & (1 << i) != 0 {
            c[i] = (c[i] + if d > 0.0 { d.ceil() } else { d.floor() } as i64).clamp(0, 255);
        }
    }
    crate::refm::pack(c[0], c[1], c[2])
}
/// Viewing conditions that share some of their parameters.
pub fn vc_mixed(a: &VcIn, b: &VcIn, mask: u8) -> VcIn {
    let p = |i: u8, x: f64, y: f64| if mask & (1 << i) != 0 { y } else { x };
    (p(0, a.0, b.0), p(1, a.1, b.1), p(2, a.2, b.2), p(3, a.3, b.3), p(4, a.4, b.4), p(5, a.5, b.5), if mask & 64 != 0 { b.6 } else { a.6 })
}
/// Viewing conditions: white-point tweak (per mille), adapting luminance,
/// background L*, surround, discounting.
pub type VcIn = (f64, f64, f64, f64, f64, f64, bool);
pub fn vc_in() -> S<VcIn> {
    let la = prop_oneof![
        3 => (-2.0..4.0f64).prop_map(|e| 10f64.powf(e)),
        1 => (-6.0..6.0f64).prop_map(|e| 10f64.powf(e)),
        1 => real(0.1, 1000.0),
        1 => Just(crate::refm::default_la()),
    ];
    let bg = prop_oneof![3 => tone(), 1 => Just(50.0), 1 => select(vec![0.0, 0.05, 0.1, 0.11, 0.2, 100.0])];
    let sur = prop_oneof![2 => real(0.0, 2.0), 1 => select(vec![0.0, 0.5, 1.0, 1.5, 2.0]), 1 => Just(2.0)];
    let wp = || prop_oneof![4 => Just(1.0), 2 => 0.85..1.15f64, 1 => 0.6..1.3f64];
    (wp(), wp(), wp(), la, bg, sur, any::<bool>()).boxed()
}
pub fn vc_white(v: &VcIn) -> [f64; 3] {
    [95.047 * v.0, 100.0 * v.1, 108.883 * v.2]
}
pub fn vc_real(v: &VcIn) -> material_color_utilities_rs::hct::viewing_conditions::ViewingConditions {
    material_color_utilities_rs::hct::viewing_conditions::ViewingConditions::make(
        Some(vc_white(v).to_vec()),
        Some(v.3),
        Some(v.4),
        Some(v.5),
        Some(v.6),
    )
}
pub fn vc_ref(v: &VcIn) -> crate::refm::Vc {
    crate::refm::Vc::make(vc_white(v), v.3, v.4, v.5, v.6)
}
