//! C21-C25: palettes, key colors, blending, disliked colors.
#![allow(deprecated)]
use super::color::hash_of;
use super::Prop;
use crate::engine::{Ctx, Outcome};
use crate::gen;
use crate::refm::{self, close, dh};
use material_color_utilities_rs::{
    blend::blend::Blend,
    dislike::dislike_analyzer::DislikeAnalyzer,
    hct::{cam16::Cam16, hct::Hct},
    palettes::{core_palette::CorePalette, tonal_palette::TonalPalette},
    scheme::scheme::Scheme,
};
use proptest::prelude::*;

pub const TONES: [i64; 13] = [0, 10, 20, 30, 40, 50, 60, 70, 80, 90, 95, 99, 100];

fn at(hue: f64, chroma: f64, tone: f64) -> i64 {
    Hct::from(hue, chroma, tone).to_int()
}

// ------------------------------------------------------------------ C21
pub const C21: Prop = Prop {
    id: "C21",
    rule: "non-trivial: the source color is not gray, or the list holds at least two different colors",
    assumptions: &["the dark on-error-container role may be tone 80 or 90 of the error palette (the crate keeps a long-standing value of 80)"],
    run: c21,
};
fn core_expected(argb: i64, content: bool) -> [(f64, f64); 6] {
    let cam = refm::cam(argb, &refm::Vc::default());
    let (h, c) = (cam.h, cam.c);
    let e = (25.0, 84.0);
    if content {
        [(h, c), (h, c / 3.0), (h + 60.0, c / 2.0), (h, (c / 12.0).min(4.0)), (h, (c / 6.0).min(8.0)), e]
    } else {
        [(h, c.max(48.0)), (h, 16.0), (h + 60.0, 24.0), (h, 4.0), (h, 8.0), e]
    }
}
fn core_palettes(c: &CorePalette) -> [&TonalPalette; 6] {
    [&c.primary, &c.secondary, &c.tertiary, &c.neutral, &c.neutral_variant, &c.error]
}
fn check_core(argb: i64, content: bool) -> Outcome {
    let make = || if content { CorePalette::content_of(argb) } else { CorePalette::of(argb) };
    let mut core = make();
    let want = core_expected(argb, content);
    for (i, p) in core_palettes(&core).iter().enumerate() {
        let (h, c) = want[i];
        // hues of near-grays are noise
        let hue_ok = dh(p.hue, h) <= 1e-6 || (want[0].1 < 1e-6 && i < 5);
        ensure!(hue_ok && close(p.chroma, c, 1e-9, 1e-9), "{argb:#x}: palette {i} is ({}, {}), want ({h}, {c})", p.hue, p.chroma);
    }
    let hc: Vec<(f64, f64)> = core_palettes(&core).iter().map(|p| (p.hue, p.chroma)).collect();
    let list = core.as_list();
    let wanted: Vec<i64> = (0..5).flat_map(|i| TONES.iter().map(move |t| (i, *t))).map(|(i, t)| at(hc[i].0, hc[i].1, t as f64)).collect();
    ensure!(list == wanted, "{argb:#x}: as_list is {list:x?}, want {wanted:x?}");
    let mut back = CorePalette::from_list(&list);
    ensure!(back.as_list() == list, "{argb:#x}: from_list(as_list) changes the list");
    ensure!(core == make() && hash_of(&core) == hash_of(&make()), "{argb:#x}: two palettes of one color differ");
    Ok(if want[0].1 < 1.0 { "" } else if content { "content" } else { "default" })
}
fn check_scheme(argb: i64, content: bool, dark: bool) -> Outcome {
    let core = if content { CorePalette::content_of(argb) } else { CorePalette::of(argb) };
    let hc: Vec<(f64, f64)> = core_palettes(&core).iter().map(|p| (p.hue, p.chroma)).collect();
    let s = match (content, dark) {
        (false, false) => Scheme::light(argb),
        (false, true) => Scheme::dark(argb),
        (true, false) => Scheme::light_content(argb),
        (true, true) => Scheme::dark_content(argb),
    };
    check_classic(&s, dark, |p, tone| at(hc[p].0, hc[p].1, tone as f64), &format!("{argb:#x} dark {dark} content {content}"))
}
/// A scheme over a palette made from colors uses those very colors.
fn check_list_scheme(list: &Vec<i64>, dark: bool) -> Outcome {
    let core = CorePalette::from_list(list);
    let s = if dark { Scheme::dark_from_core_palette(core) } else { Scheme::light_from_core_palette(core) };
    let pick = |p: usize, tone: i64| match TONES.iter().position(|t| *t == tone) {
        Some(i) if p < 5 => list[13 * p + i],
        _ => at(25.0, 84.0, tone as f64),
    };
    check_classic(&s, dark, pick, &format!("scheme of a list, dark {dark}"))
}
fn check_classic(s: &Scheme, dark: bool, pick: impl Fn(usize, i64) -> i64, what: &str) -> Outcome {
    let table: [(&str, i64, usize, [f64; 2]); 29] = [
        ("primary", s.primary, 0, [40.0, 80.0]),
        ("on_primary", s.on_primary, 0, [100.0, 20.0]),
        ("primary_container", s.primary_container, 0, [90.0, 30.0]),
        ("on_primary_container", s.on_primary_container, 0, [10.0, 90.0]),
        ("secondary", s.secondary, 1, [40.0, 80.0]),
        ("on_secondary", s.on_secondary, 1, [100.0, 20.0]),
        ("secondary_container", s.secondary_container, 1, [90.0, 30.0]),
        ("on_secondary_container", s.on_secondary_container, 1, [10.0, 90.0]),
        ("tertiary", s.tertiary, 2, [40.0, 80.0]),
        ("on_tertiary", s.on_tertiary, 2, [100.0, 20.0]),
        ("tertiary_container", s.tertiary_container, 2, [90.0, 30.0]),
        ("on_tertiary_container", s.on_tertiary_container, 2, [10.0, 90.0]),
        ("error", s.error, 5, [40.0, 80.0]),
        ("on_error", s.on_error, 5, [100.0, 20.0]),
        ("error_container", s.error_container, 5, [90.0, 30.0]),
        ("on_error_container", s.on_error_container, 5, [10.0, 80.0]),
        ("background", s.background, 3, [99.0, 10.0]),
        ("on_background", s.on_background, 3, [10.0, 90.0]),
        ("surface", s.surface, 3, [99.0, 10.0]),
        ("on_surface", s.on_surface, 3, [10.0, 90.0]),
        ("surface_variant", s.surface_variant, 4, [90.0, 30.0]),
        ("on_surface_variant", s.on_surface_variant, 4, [30.0, 80.0]),
        ("outline", s.outline, 4, [50.0, 60.0]),
        ("outline_variant", s.outline_variant, 4, [80.0, 30.0]),
        ("shadow", s.shadow, 3, [0.0, 0.0]),
        ("scrim", s.scrim, 3, [0.0, 0.0]),
        ("inverse_surface", s.inverse_surface, 3, [20.0, 90.0]),
        ("inverse_on_surface", s.inverse_on_surface, 3, [95.0, 20.0]),
        ("inverse_primary", s.inverse_primary, 0, [80.0, 40.0]),
    ];
    for (name, got, p, tones) in table {
        let want = pick(p, tones[dark as usize] as i64);
        let spared = name == "on_error_container" && dark && got == pick(p, 90);
        ensure!(got == want || spared, "{what}: {name} is {got:#x}, want {want:#x}");
    }
    Ok(if dark { "dark" } else { "light" })
}
/// Lists of colors: arbitrary, repeated, or a real palette with few changes.
pub fn color_list(n: usize) -> gen::S<Vec<i64>> {
    prop_oneof![
        3 => prop::collection::vec(gen::argb(), n..=n),
        1 => prop::collection::vec(gen::argb_alpha(), n..=n),
        1 => (gen::argb(), gen::argb(), prop::collection::vec(any::<bool>(), n..=n)).prop_map(|(a, b, m)| m.into_iter().map(|x| if x { a } else { b }).collect()),
        3 => (gen::hue(), gen::chroma(), prop::collection::vec((0..n, gen::argb()), 0..3)).prop_map(move |(h, c, ch)| {
            let mut v: Vec<i64> = (0..n).map(|i| gen::hct_color(h, c, TONES[i % 13] as f64)).collect();
            for (i, a) in ch {
                v[i] = a;
            }
            v
        }),
        1 => (any::<u8>(), 0u8..3, prop::collection::vec(0u8..3, n..=n)).prop_map(|(v, d, m)| m.into_iter().map(|x| gen::rgb_argb(v.saturating_add(x * d), v, v.saturating_add(d))).collect()),
    ]
    .boxed()
}
fn c21(ctx: &Ctx) {
    ctx.search("source-colors", ctx.n(24_000, 500_000), || (gen::argb(), any::<bool>()), |(a, c)| check_core(*a, *c));
    ctx.search("schemes", ctx.n(24_000, 500_000), || (gen::argb(), any::<bool>(), any::<bool>()), |(a, c, d)| check_scheme(*a, *c, *d));
    // Neighbouring source colors, normal and content, light and dark, in a row.
    ctx.search("neighbours", ctx.n(3_000, 60_000), || (gen::argb(), gen::near_steps(4), prop::collection::vec((any::<bool>(), any::<bool>()), 5..=5)), |(a, steps, how)| {
        let mut a = *a;
        let mut label = "";
        for k in 0..=steps.len() {
            if k > 0 && steps[k - 1].1 < 0.7 {
                a = gen::near_argb(a, &steps[k - 1]);
            }
            check_core(a, how[k].0)?;
            label = check_scheme(a, how[k].0, how[k].1)?;
        }
        Ok(label)
    });
    ctx.search("lists", ctx.n(8_000, 200_000), || (color_list(65), prop::collection::vec(0usize..65, 0..2)), |(list, edits)| {
        let mut c = CorePalette::from_list(list);
        ensure!(c.as_list() == *list, "from_list(l).as_list() is {:x?}", c.as_list());
        for (i, p) in core_palettes(&c)[..5].iter().enumerate() {
            let part = TonalPalette::from_list(&list[13 * i..13 * i + 13].to_vec());
            ensure!(**p == part && p.hue == part.hue && p.chroma == part.chroma, "palette {i} is not made of part {i}");
        }
        ensure!(dh(c.error.hue, 25.0) < 1e-9 && c.error.chroma == 84.0, "error palette ({}, {})", c.error.hue, c.error.chroma);
        let mut other = list.clone();
        for i in edits {
            other[*i] ^= 0x10;
        }
        let d = CorePalette::from_list(&other);
        ensure!((c == d) == (other == *list), "palettes of {} lists compare {}", if other == *list { "equal" } else { "different" }, c == d);
        ensure!(c != d || hash_of(&c) == hash_of(&d), "equal palettes hash differently");
        Ok("list")
    });
    ctx.search("refused", ctx.n(10_000, 100_000), || prop_oneof![4 => 0usize..140, 1 => 64usize..67].prop_flat_map(|n| prop::collection::vec(gen::argb(), n..=n)), |l: &Vec<i64>| {
        let got = crate::engine::guarded(|| CorePalette::from_list(l).primary.hue);
        ensure!(got.is_ok() == (l.len() == 65), "a core palette from {} colors: {got:?}", l.len());
        Ok(if l.len() == 65 { "" } else { "refused" })
    });
    ctx.search("list-schemes", ctx.n(4_000, 100_000), || (color_list(65), any::<bool>()), |(l, d)| check_list_scheme(l, *d));
    ctx.pinned("sizes", vec![0u64], |_| {
        ensure!(CorePalette::SIZE as usize == 5 && TonalPalette::COMMON_SIZE as usize == 13 && TonalPalette::COMMON_TONES.iter().map(|t| *t as i64).eq(TONES), "sizes or common tones differ");
        Ok("sizes")
    });
    ctx.search("text", ctx.n(4_000, 50_000), || (gen::argb(), any::<bool>()), |(a, c)| {
        let core = if *c { CorePalette::content_of(*a) } else { CorePalette::of(*a) };
        let text = core.to_string();
        for (n, p) in ["primary", "secondary", "tertiary", "neutral", "neutralVariant", "error"].iter().zip(core_palettes(&core)) {
            let line = format!("{n}: TonalPalette.of({}, {})", p.hue, p.chroma);
            ensure!(text.lines().any(|l| l.trim() == line), "no line {line:?} in {text:?}");
        }
        Ok("text")
    });
}

// ------------------------------------------------------------------ C22
pub const C22: Prop = Prop {
    id: "C22",
    rule: "non-trivial: the history reads the palette at least twice; classes name how the palette was made",
    assumptions: &[
        "a palette made from hue and chroma that equals a palette made from a list hashes differently: listed in KNOWN_FINDINGS, not raised",
        "tones are within the range of 64-bit integers",
    ],
    run: c22,
};
/// How a palette is made: 0 hue and chroma, 1 a color, 2 a list.
type Made = (u8, f64, f64, i64, Vec<i64>);
fn made() -> gen::S<Made> {
    (0u8..3, gen::hue(), gen::chroma(), gen::argb_alpha(), color_list(13)).boxed()
}
fn make(m: &Made) -> TonalPalette {
    match m.0 {
        0 => TonalPalette::of(m.1, m.2),
        1 => TonalPalette::from_hct(&Hct::from_int(m.3)),
        _ => TonalPalette::from_list(&m.4),
    }
}
struct Model {
    hue: f64,
    chroma: f64,
    list: Option<Vec<i64>>,
}
impl Model {
    fn get(&self, tone: f64) -> i64 {
        if let Some(l) = &self.list {
            if let Some(i) = TONES.iter().position(|t| *t as f64 == tone) {
                return l[i];
            }
        }
        at(self.hue, self.chroma, tone)
    }
    fn as_list(&self) -> Vec<i64> {
        TONES.iter().map(|t| self.get(*t as f64)).collect()
    }
    fn text(&self) -> String {
        match &self.list {
            None => format!("TonalPalette.of({}, {})", self.hue, self.chroma),
            Some(l) => format!("TonalPalette.fromList([{}])", l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")),
        }
    }
}
fn model(m: &Made) -> Model {
    match m.0 {
        0 => Model { hue: m.1, chroma: m.2, list: None },
        1 => {
            let h = Hct::from_int(m.3);
            Model { hue: h.get_hue(), chroma: h.get_chroma(), list: None }
        }
        _ => {
            // The hue and chroma of the most colorful color that is not near white.
            let mut best = (0.0, 0.0);
            for a in &m.4 {
                let h = Hct::from_int(*a);
                if h.get_tone() <= 98.0 && h.get_chroma() > best.1 {
                    best = (h.get_hue(), h.get_chroma());
                }
            }
            Model { hue: best.0, chroma: best.1, list: Some(m.4.clone()) }
        }
    }
}
fn op_tone() -> gen::S<f64> {
    prop_oneof![
        3 => prop::sample::select(TONES.to_vec()).prop_map(|t| t as f64),
        3 => (0i64..=100).prop_map(|t| t as f64),
        2 => gen::tone(),
        2 => (prop::sample::select(TONES.to_vec()), gen::nudge()).prop_map(|(t, n)| t as f64 + n),
        1 => -20.0..120.0f64,
        1 => (-20i64..120).prop_map(|t| t as f64),
    ]
    .boxed()
}
const NAMES: [&str; 3] = ["of", "from-color", "from-list"];
fn check_pair(ctx: &Ctx, x: &TonalPalette, y: &TonalPalette, mx: &Model, my: &Model) -> Result<bool, String> {
    let want = match (&mx.list, &my.list) {
        (None, None) => mx.hue == my.hue && mx.chroma == my.chroma,
        _ => mx.as_list() == my.as_list(),
    };
    ensure!((x == y) == want && (y == x) == want, "palettes {} and {} compare {}, want {want}", mx.text(), my.text(), x == y);
    if want && hash_of(x) != hash_of(y) {
        let listed = mx.list.is_some() != my.list.is_some()
            && ctx.known_finding("a palette from hue and chroma equals the palette made from its own list of colors, but their hashes differ, e.g. TonalPalette::of(270.0, 36.0)");
        if !listed {
            return Err(format!("equal palettes {} and {} hash differently", mx.text(), my.text()));
        }
    }
    Ok(want)
}
fn c22(ctx: &Ctx) {
    ctx.pinned("mixed-constructors", vec![(270.0, 36.0)], |(h, c): &(f64, f64)| {
        let a: Made = (0, *h, *c, 0, vec![]);
        let list = make(&a).get_as_list();
        let b: Made = (2, 0.0, 0.0, 0, list);
        check_pair(ctx, &make(&a), &make(&b), &model(&a), &model(&b))?;
        Ok("mixed")
    });
    ctx.search("refused", ctx.n(10_000, 100_000), || prop_oneof![3 => 0usize..40, 1 => 12usize..15].prop_flat_map(|n| prop::collection::vec(gen::argb(), n..=n)), |l: &Vec<i64>| {
        let got = crate::engine::guarded(|| TonalPalette::from_list(l).hue);
        ensure!(got.is_ok() == (l.len() == 13), "a palette from {} colors: {got:?}", l.len());
        Ok(if l.len() == 13 { "" } else { "refused" })
    });
    ctx.search("histories", ctx.n(60_000, 1_000_000), || (made(), prop::collection::vec((0u8..7, op_tone()), 0..20)), |(m, ops)| {
        let mut p = make(m);
        let mo = model(m);
        ensure!(p.hue == mo.hue && p.chroma == mo.chroma, "made ({}, {}), want ({}, {})", p.hue, p.chroma, mo.hue, mo.chroma);
        for (k, (op, t)) in ops.iter().enumerate() {
            match op {
                0 | 1 => {
                    let t = t.round();
                    let got = p.get(t as i64);
                    ensure!(got == mo.get(t), "step {k}: get({t}) is {got:#x}, want {:#x}", mo.get(t));
                }
                2 | 3 => {
                    let got = p.get_hct(*t);
                    let want = mo.get(*t);
                    ensure!(got.to_int() == want, "step {k}: get_hct({t}) is {:#x}, want {want:#x}", got.to_int());
                    let h = Hct::from_int(want);
                    ensure!(dh(got.get_hue(), h.get_hue()) < 1e-6 && close(got.get_chroma(), h.get_chroma(), 1e-9, 1e-9) && close(got.get_tone(), h.get_tone(), 1e-9, 1e-9), "step {k}: coordinates of get_hct({t})");
                }
                4 => {
                    let got = p.get_as_list();
                    ensure!(got == mo.as_list(), "step {k}: get_as_list is {got:x?}, want {:x?}", mo.as_list());
                }
                5 => {
                    let got = p.to_string();
                    ensure!(got == mo.text(), "step {k}: text is {got:?}, want {:?}", mo.text());
                }
                _ => {
                    let q = p.clone();
                    ensure!(q == p && hash_of(&q) == hash_of(&p), "step {k}: a clone differs");
                    p = q;
                }
            }
        }
        let fresh = make(m);
        ensure!(p == fresh && hash_of(&p) == hash_of(&fresh), "reading changed the palette");
        ensure!(p.hue == fresh.hue && p.chroma == fresh.chroma && p.key_color == fresh.key_color, "reading changed the palette's fields");
        Ok(if ops.len() < 2 { "" } else { NAMES[m.0 as usize] })
    });
    // Palettes that nearly agree, made one after the other and read in turn.
    ctx.search(
        "neighbours",
        ctx.n(10_000, 200_000),
        || (made(), gen::near_steps(4), prop::collection::vec((0usize..64, op_tone(), any::<bool>()), 2..12), prop::collection::vec((0usize..13, gen::argb()), 4..=4)),
        |(m, steps, reads, edits)| {
            let mut all: Vec<Made> = vec![m.clone()];
            for (k, at) in gen::visit([m.1, m.2, 0.0], steps).iter().enumerate().skip(1) {
                let mut n = all[k - 1].clone();
                (n.1, n.2) = (refm::deg(at[0]), at[1].max(0.0));
                n.3 = gen::near_argb(n.3, &steps[k - 1]);
                n.4[edits[k - 1].0] = edits[k - 1].1;
                all.push(n);
            }
            let mut made: Vec<(TonalPalette, Model)> = all.iter().map(|m| (make(m), model(m))).collect();
            for (k, (i, t, whole)) in reads.iter().enumerate() {
                let n = made.len();
                // the same tone of each palette, in some order
                for j in 0..n {
                    let (p, mo) = &mut made[(i + j) % n];
                    let (got, t) = if *whole { (p.get(t.round() as i64), t.round()) } else { (p.get_hct(*t).to_int(), *t) };
                    ensure!(got == mo.get(t), "read {k} at tone {t} of {}: {got:#x}, want {:#x}", mo.text(), mo.get(t));
                }
            }
            for (p, mo) in &mut made {
                ensure!(p.get_as_list() == mo.as_list() && p.to_string() == mo.text(), "list or text of {}", mo.text());
            }
            for w in 1..made.len() {
                check_pair(ctx, &made[w - 1].0, &made[w].0, &made[w - 1].1, &made[w].1)?;
            }
            Ok(NAMES[m.0 as usize])
        },
    );
    // A palette read at hundreds of different tones still answers as at first.
    ctx.search("long", ctx.n(160, 3_000), || (made(), any::<u64>(), gen::steps(1_200)), |(m, seed, n)| {
        let mut p = make(m);
        let mo = model(m);
        let mut r = gen::Mix(*seed);
        let mut seen: Vec<i64> = Vec::new();
        for k in 0..*n {
            if k % 64 == 63 {
                ensure!(p.get_as_list() == mo.as_list(), "step {k}: get_as_list is {:x?}, want {:x?}", p.get_as_list(), mo.as_list());
            }
            let t = match r.below(8) {
                0 if !seen.is_empty() => seen[r.below(seen.len() as u64) as usize],
                1 => r.below(101) as i64,
                2 => TONES[r.below(13) as usize],
                3 => r.below(2_000) as i64 - 1_000,
                _ => (if r.0 & 1 == 0 { k as i64 } else { -(k as i64) }) + if *seed & 1 == 0 { 0 } else { 50 },
            };
            seen.push(t);
            ensure!(p.get(t) == mo.get(t as f64), "step {k}: get({t}) is {:#x}, want {:#x}", p.get(t), mo.get(t as f64));
            if r.below(4) == 0 {
                let f = r.unit() * 100.0;
                ensure!(p.get_hct(f).to_int() == mo.get(f), "step {k}: get_hct({f}) is {:#x}, want {:#x}", p.get_hct(f).to_int(), mo.get(f));
            }
        }
        ensure!(p.get_as_list() == mo.as_list(), "after {n} reads get_as_list is {:x?}, want {:x?}", p.get_as_list(), mo.as_list());
        let fresh = make(m);
        ensure!(p == fresh && hash_of(&p) == hash_of(&fresh) && p.to_string() == mo.text(), "reading changed the palette");
        Ok(NAMES[m.0 as usize])
    });
    ctx.search("equality", ctx.n(60_000, 1_000_000), || (made(), made(), 0u8..6, 0usize..13), |(a, b, rel, i)| {
        let mut b = b.clone();
        match rel {
            0 => b = a.clone(),
            1 => (b.0, b.1, b.2) = (0, a.1, a.2),
            2 => (b.0, b.4) = (2, model(a).as_list()),
            3 => {
                (b.0, b.4) = (2, model(a).as_list());
                b.4[*i] ^= 1;
            }
            4 => {
                // the same hue and chroma, by another constructor
                let m = model(a);
                (b.0, b.1, b.2) = (0, m.hue, m.chroma);
            }
            _ => {}
        }
        let (mut x, mut y) = (make(a), make(&b));
        let (mx, my) = (model(a), model(&b));
        let same = check_pair(ctx, &x, &y, &mx, &my)?;
        // reading either side changes nothing
        let _ = x.get(*i as i64);
        let _ = y.get_as_list();
        check_pair(ctx, &x, &y, &mx, &my)?;
        Ok(if same { "equal" } else { "different" })
    });
    ctx.search("zero", ctx.n(4_000, 50_000), || (gen::hue(), gen::chroma(), 0u8..3), |(h, c, k)| {
        let (a, b) = match k {
            0 => ((0.0, *c), (-0.0, *c)),
            1 => ((*h, 0.0), (*h, -0.0)),
            _ => ((0.0, 0.0), (-0.0, -0.0)),
        };
        let (x, y) = (TonalPalette::of(a.0, a.1), TonalPalette::of(b.0, b.1));
        ensure!(x == y && hash_of(&x) == hash_of(&y), "palettes {a:?} and {b:?} differ");
        Ok("zero")
    });
    // A palette survives the trip through a list.
    ctx.search("list-trip", ctx.n(40_000, 500_000), || (gen::hue(), gen::chroma()), |(h, c)| {
        let mut p = TonalPalette::of(*h, *c);
        let list = p.get_as_list();
        let mut q = TonalPalette::from_list(&list);
        ensure!(q.get_as_list() == list, "from_list(as_list) of ({h}, {c}) changes the list");
        ensure!(p == q && q == p, "from_list(as_list) of ({h}, {c}) is not equal");
        Ok(if *c < 1.0 { "" } else { "trip" })
    });
}

// ------------------------------------------------------------------ C23
pub const C23: Prop = Prop {
    id: "C23",
    rule: "non-trivial: the wanted chroma is not reached at tone 50, so that other tones have to be searched",
    assumptions: &[],
    run: c23,
};
fn ref_key(h: f64, c: f64) -> (i64, bool) {
    let chroma_at = |t: f64| Hct::from(h, c, t).get_chroma();
    let (mut tone, mut got) = (50.0, chroma_at(50.0));
    let mut searched = false;
    for step in 1..50 {
        if got.round() == c.round() {
            break;
        }
        searched = true;
        for t in [50.0 + step as f64, 50.0 - step as f64] {
            let x = chroma_at(t);
            if (x - c).abs() < (got - c).abs() {
                (tone, got) = (t, x);
            }
        }
    }
    (at(h, c, tone), searched)
}
fn c23(ctx: &Ctx) {
    ctx.search("key-colors", ctx.n(80_000, 1_500_000), || (gen::hue(), gen::chroma()), |(h, c)| {
        let p = TonalPalette::of(*h, *c);
        let (want, searched) = ref_key(*h, *c);
        let got = p.key_color.to_int();
        ensure!(got == want, "key color of ({h}, {c}) is {got:#x}, want {want:#x}");
        ensure!(TonalPalette::create_key_color(*h, *c).to_int() == want, "create_key_color({h}, {c}) differs from the palette's key color");
        // No whole tone comes closer to the wanted chroma than the key color
        // does, unless it already rounds to it.
        let k = p.key_color.get_chroma();
        if k.round() != c.round() {
            for t in 1..100 {
                let x = Hct::from(*h, *c, t as f64).get_chroma();
                ensure!((x - c).abs() >= (k - c).abs() - 1e-9, "({h}, {c}): tone {t} has chroma {x}, the key color {k}");
            }
        }
        Ok(if searched { "searched" } else { "" })
    });
    // Neighbouring palettes in a row.
    ctx.search("neighbours", ctx.n(10_000, 150_000), || (gen::hue(), gen::chroma(), gen::near_steps(4)), |(h, c, steps)| {
        // What is wanted is worked out in reverse order, so that an answer kept
        // from one palette for the next cannot be the one that is wanted.
        let all: Vec<(f64, f64)> = gen::visit([*h, *c, 0.0], steps).iter().map(|w| (refm::deg(w[0]), w[1].max(0.0))).collect();
        let got: Vec<i64> = all.iter().map(|(h, c)| TonalPalette::of(*h, *c).key_color.to_int()).collect();
        let mut any = false;
        for (i, (h, c)) in all.iter().enumerate().rev() {
            let (want, searched) = ref_key(*h, *c);
            any |= searched;
            ensure!(got[i] == want, "key color of ({h}, {c}) after {:?} is {:#x}, want {want:#x}", &all[..i], got[i]);
        }
        Ok(if any { "searched" } else { "" })
    });
    ctx.search("half-chromas", ctx.n(20_000, 300_000), || (gen::hue(), (0u32..120).prop_map(|c| c as f64 + 0.5), gen::nudge()), |(h, c, n)| {
        let c = (c + n * 0.01).max(0.0);
        let (want, searched) = ref_key(*h, c);
        let got = TonalPalette::of(*h, c).key_color.to_int();
        ensure!(got == want, "key color of ({h}, {c}) is {got:#x}, want {want:#x}");
        Ok(if searched { "searched" } else { "" })
    });
    ctx.search("from-color", ctx.n(40_000, 500_000), gen::argb_alpha, |a| {
        let h = Hct::from_int(*a);
        let p = TonalPalette::from_hct(&h);
        ensure!(p.key_color.to_int() == *a, "the key color of the palette of {a:#x} is {:#x}", p.key_color.to_int());
        ensure!(p.hue == h.get_hue() && p.chroma == h.get_chroma(), "hue or chroma of the palette of {a:#x}");
        Ok("given")
    });
    ctx.search("from-list", ctx.n(6_000, 100_000), || color_list(13), |l| {
        let p = TonalPalette::from_list(l);
        let (want, searched) = ref_key(p.hue, p.chroma);
        ensure!(p.key_color.to_int() == want, "key color of the palette of {l:x?} is {:#x}, want {want:#x}", p.key_color.to_int());
        Ok(if searched { "searched" } else { "" })
    });
}

// ------------------------------------------------------------------ C24
pub const C24: Prop = Prop {
    id: "C24",
    rule: "non-trivial: both colors have chroma above 2 (their hues mean something) and differ",
    assumptions: &["blend amounts are within [0, 1]"],
    run: c24,
};
/// `argb` is the color of (h, c, t), up to the noise of a reordered computation.
fn is_color(argb: i64, h: f64, c: f64, t: f64) -> bool {
    [0.0, 1e-9, -1e-9].iter().any(|d| at(refm::deg(h + d), c, t) == argb)
}
fn amount() -> gen::S<f64> {
    prop_oneof![
        4 => 0.0..1.0f64,
        2 => prop::sample::select(vec![0.0, 0.1, 0.25, 0.5, 0.75, 0.8, 0.9, 1.0]),
        1 => prop::sample::select(vec![1e-9, 1e-6, 1.0 - 1e-9, 1.0 - 1e-6]),
    ]
    .boxed()
}
fn two() -> gen::S<(i64, i64)> {
    prop_oneof![
        5 => (gen::argb(), gen::argb()),
        // hues nearly opposite, nearly equal, or about 30 degrees apart
        3 => (gen::argb(), prop::sample::select(vec![0.0, 15.0, 30.0, 60.0, 180.0]), any::<bool>(), -2.0..2.0f64, gen::chroma(), gen::tone()).prop_map(|(a, d, s, n, c, t)| {
            let h = refm::cam(a, &refm::Vc::default()).h;
            (a, gen::hct_color(refm::deg(h + if s { d } else { -d } + n), c, t))
        }),
        1 => gen::argb().prop_map(|a| (a, a)),
        1 => (gen::argb_alpha(), gen::argb_alpha()),
    ]
    .boxed()
}
fn label(a: i64, b: i64, l: &'static str) -> &'static str {
    let c = |x: i64| Hct::from_int(x).get_chroma();
    if a != b && c(a) > 2.0 && c(b) > 2.0 {
        l
    } else {
        ""
    }
}
fn c24(ctx: &Ctx) {
    ctx.search("harmonize", ctx.n(400_000, 6_000_000), two, |(d, s)| {
        let (a, b) = (Hct::from_int(*d), Hct::from_int(*s));
        let (ha, hb) = (a.get_hue(), b.get_hue());
        let diff = dh(ha, hb);
        let turn = (diff / 2.0).min(15.0);
        let got = Blend::harmonize(*d, *s);
        ensure!((0xff000000..=0xffffffff).contains(&got), "harmonize({d:#x}, {s:#x}) is {got:#x}");
        let forward = refm::deg(hb - ha) <= 180.0;
        let tie = (diff - 180.0).abs() < 1e-9;
        let ok = |up: bool| is_color(got, refm::deg(if up { ha + turn } else { ha - turn }), a.get_chroma(), a.get_tone());
        ensure!(ok(forward) || (tie && ok(!forward)), "harmonize({d:#x}, {s:#x}) is {got:#x}: hue {ha} towards {hb} by {turn}");
        if a.get_tone() > 0.5 && a.get_tone() < 98.0 {
            let g = Hct::from_int(got);
            ensure!((g.get_tone() - a.get_tone()).abs() <= 0.6, "harmonize({d:#x}, {s:#x}) changes tone {} to {}", a.get_tone(), g.get_tone());
        }
        if ha == hb {
            ensure!(got == *d | 0xff000000, "harmonize({d:#x}, {s:#x}) is {got:#x} although the hues agree");
        }
        Ok(label(*d, *s, "harmonize"))
    });
    ctx.search("ucs", ctx.n(400_000, 6_000_000), || (two(), amount()), |((a, b), t)| {
        let got = Blend::cam16_ucs(*a, *b, *t);
        ensure!((0xff000000..=0xffffffff).contains(&got), "cam16_ucs({a:#x}, {b:#x}, {t}) is {got:#x}");
        let vc = refm::Vc::default();
        let (u, v) = (refm::cam(*a, &vc).ucs, refm::cam(*b, &vc).ucs);
        let w = [0, 1, 2].map(|i| u[i] + (v[i] - u[i]) * t);
        let [j, c, h] = refm::jch_of_ucs(w, &vc);
        let want = refm::linrgb_of_jch(j, c, h, &vc).map(|x| refm::delin(x).clamp(0.0, 255.0));
        let rgb = refm::rgb(got);
        for i in 0..3 {
            ensure!((rgb[i] as f64 - want[i]).abs() <= 0.501, "cam16_ucs({a:#x}, {b:#x}, {t}) is {got:#x}, want {want:?}");
        }
        if *t == 0.0 {
            ensure!(got == *a | 0xff000000, "cam16_ucs({a:#x}, {b:#x}, 0) is {got:#x}");
        }
        if *t == 1.0 {
            ensure!(got == *b | 0xff000000, "cam16_ucs({a:#x}, {b:#x}, 1) is {got:#x}");
        }
        Ok(label(*a, *b, "ucs"))
    });
    // The same colors with other amounts, and neighbouring colors, in a row.
    ctx.search("neighbours", ctx.n(60_000, 1_000_000), || (two(), amount(), gen::near_steps(4), prop::collection::vec(prop::option::of(amount()), 4..=4)), |((a, b), t, steps, ts)| {
        let (mut a, mut b, mut t) = (*a, *b, *t);
        let vc = refm::Vc::default();
        for k in 0..=steps.len() {
            if k > 0 {
                match steps[k - 1].0 % 3 {
                    0 => a = gen::near_argb(a, &steps[k - 1]),
                    1 => b = gen::near_argb(b, &steps[k - 1]),
                    _ => (),
                }
                t = ts[k - 1].unwrap_or(t);
            }
            let got = Blend::cam16_ucs(a, b, t);
            let (u, v) = (refm::cam(a, &vc).ucs, refm::cam(b, &vc).ucs);
            let [j, c, h] = refm::jch_of_ucs([0, 1, 2].map(|i| u[i] + (v[i] - u[i]) * t), &vc);
            let want = refm::linrgb_of_jch(j, c, h, &vc).map(|x| refm::delin(x).clamp(0.0, 255.0));
            let rgb = refm::rgb(got);
            ensure!((0..3).all(|i| (rgb[i] as f64 - want[i]).abs() <= 0.501), "cam16_ucs({a:#x}, {b:#x}, {t}) is {got:#x}, want {want:?}");
            let from = Hct::from_int(a);
            let hue = refm::cam(got, &vc).h;
            let x = Blend::hct_hue(a, b, t);
            ensure!(is_color(x, hue, from.get_chroma(), from.get_tone()), "hct_hue({a:#x}, {b:#x}, {t}) is {x:#x}, want hue {hue}");
            let (ha, hb) = (refm::cam(a, &vc).h, refm::cam(b, &vc).h);
            let turn = (dh(ha, hb) / 2.0).min(15.0);
            let y = Blend::harmonize(a, b);
            let ok = [turn, -turn].iter().any(|d| is_color(y, refm::deg(ha + d), from.get_chroma(), from.get_tone()));
            ensure!(ok || from.get_chroma() < 1.0 || Hct::from_int(b).get_chroma() < 1.0, "harmonize({a:#x}, {b:#x}) is {y:#x}: hue {ha} towards {hb} by {turn}");
        }
        Ok(label(a, b, "neighbours"))
    });
    ctx.search("hue", ctx.n(300_000, 5_000_000), || (two(), amount()), |((a, b), t)| {
        let got = Blend::hct_hue(*a, *b, *t);
        ensure!((0xff000000..=0xffffffff).contains(&got), "hct_hue({a:#x}, {b:#x}, {t}) is {got:#x}");
        let hue = Cam16::from_int(Blend::cam16_ucs(*a, *b, *t)).hue;
        let from = Hct::from_int(*a);
        ensure!(is_color(got, hue, from.get_chroma(), from.get_tone()), "hct_hue({a:#x}, {b:#x}, {t}) is {got:#x}, want hue {hue}, chroma {}, tone {}", from.get_chroma(), from.get_tone());
        if *t == 0.0 {
            ensure!(got == *a | 0xff000000, "hct_hue({a:#x}, {b:#x}, 0) is {got:#x}");
        }
        Ok(label(*a, *b, "hue"))
    });
}

// ------------------------------------------------------------------ C25
pub const C25: Prop = Prop {
    id: "C25",
    rule: "non-trivial: disliked colors, and colors that miss the disliked region in exactly one of hue, chroma and tone; every opaque color is enumerated",
    assumptions: &["a color whose coordinates lie within 1e-6 of a rounding boundary may fall on either side"],
    run: c25,
};
fn round(x: f64) -> f64 {
    (x + 0.5).floor()
}
pub fn ref_disliked(h: f64, c: f64, t: f64) -> bool {
    (90.0..=111.0).contains(&round(h)) && round(c) > 16.0 && round(t) < 65.0
}
fn check_dislike(argb: i64) -> Outcome {
    let h = Hct::from_int(argb);
    let (hue, chroma, tone) = (h.get_hue(), h.get_chroma(), h.get_tone());
    let is = DislikeAnalyzer::is_disliked(&h);
    let edge = |x: f64, b: f64| (x - b).abs() < 1e-6;
    let near = edge(hue, 89.5) || edge(hue, 111.5) || edge(chroma, 16.5) || edge(tone, 64.5);
    ensure!(near || is == ref_disliked(hue, chroma, tone), "{argb:#x} ({hue}, {chroma}, {tone}) is {}disliked", if is { "" } else { "not " });
    let fixed = DislikeAnalyzer::fix_if_disliked(&h);
    if is {
        let want = at(hue, chroma, 70.0);
        ensure!(fixed.to_int() == want, "{argb:#x} is lightened to {:#x}, want {want:#x}", fixed.to_int());
        ensure!((fixed.get_tone() - 70.0).abs() <= 0.5, "{argb:#x} is lightened to tone {}", fixed.get_tone());
    } else {
        ensure!(fixed.to_int() == argb && fixed.get_hue() == hue && fixed.get_chroma() == chroma && fixed.get_tone() == tone, "{argb:#x} is liked but becomes {:#x}", fixed.to_int());
    }
    ensure!(!DislikeAnalyzer::is_disliked(&fixed), "{argb:#x} is still disliked after the fix ({:#x})", fixed.to_int());
    let hits = (90.0..=111.0).contains(&round(hue)) as u8 + (round(chroma) > 16.0) as u8 + (round(tone) < 65.0) as u8;
    Ok(if is { "disliked" } else if hits == 2 { "one-off" } else { "" })
}
fn c25(ctx: &Ctx) {
    ctx.sweep("all-opaque", 1 << 24, |i| check_dislike(0xff000000 | *i as i64));
    ctx.search("translucent", ctx.n(100_000, 1_000_000), gen::argb_alpha, |a| check_dislike(*a));
}
