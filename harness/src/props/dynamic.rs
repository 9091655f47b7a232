//! C15-C20: dynamic colors and schemes.
use super::color::hash_of;
use super::contrast::ref_foreground_eps;
use super::Prop;
use crate::contrasts::CONTRASTS;
use crate::engine::{Ctx, Outcome};
use crate::gen;
use crate::refm::{self, close, contrast, dh};
use crate::roles::{role, ROLES};
use crate::schemes::{self, NAMES};
use material_color_utilities_rs::{
    dislike::dislike_analyzer::DislikeAnalyzer,
    dynamiccolor::{
        dynamic_color::DynamicColor,
        dynamic_scheme::DynamicScheme,
        src::{
            contrast_curve::ContrastCurve,
            tone_delta_pair::{ToneDeltaPair, TonePolarity},
        },
    },
    hct::hct::Hct,
    palettes::tonal_palette::TonalPalette,
    temperature::temperature_cache::TemperatureCache,
};
use proptest::prelude::*;

pub type SchemeIn = (u8, i64, bool, f64);
/// variant, source color, dark, contrast level. Content and fidelity, which
/// are slow to build, are rarer.
pub fn scheme_in() -> gen::S<SchemeIn> {
    let v = prop_oneof![9 => prop::sample::select(vec![0u8, 1, 2, 3, 4, 7, 8]), 1 => prop::sample::select(vec![5u8, 6])];
    (v, gen::argb(), any::<bool>(), gen::level()).boxed()
}
fn show(s: &SchemeIn) -> String {
    format!("{} of {:#x}, {}, level {}", NAMES[s.0 as usize], s.1, if s.2 { "dark" } else { "light" }, s.3)
}
fn build(s: &SchemeIn) -> DynamicScheme {
    schemes::scheme(s.0, s.1, s.2, s.3)
}

/// A scheme with given palettes and a given variant: the temperature search of
/// content and fidelity is replaced by palettes chosen by the generator.
pub type CustomIn = (u8, i64, bool, f64, Vec<(f64, f64)>);
pub fn custom_in() -> gen::S<CustomIn> {
    (0u8..9, gen::argb(), any::<bool>(), gen::level(), prop::collection::vec((gen::hue(), gen::chroma()), 5..=5)).boxed()
}
pub fn custom(s: &CustomIn) -> DynamicScheme {
    let p: Vec<TonalPalette> = (0..5).map(|i| TonalPalette::of(s.4[i].0, s.4[i].1)).collect();
    let mut p = p.into_iter();
    let mut n = || p.next().unwrap();
    DynamicScheme::new(s.1, schemes::variant(s.0), Some(s.3), s.2, n(), n(), n(), n(), n())
}
fn show_custom(s: &CustomIn) -> String {
    format!("custom {} of {:#x}, {}, level {}, palettes {:?}", NAMES[s.0 as usize], s.1, if s.2 { "dark" } else { "light" }, s.3, s.4)
}

/// Contrast a curve asks for.
pub fn curve_at(v: &[f64; 4], x: f64) -> f64 {
    let at = [-1.0, 0.0, 0.5, 1.0];
    if x <= -1.0 {
        return v[0];
    }
    if x >= 1.0 {
        return v[3];
    }
    let i = (0..3).find(|i| x < at[i + 1]).unwrap_or(2);
    v[i] + (v[i + 1] - v[i]) * (x - at[i]) / (at[i + 1] - at[i])
}

// ------------------------------------------------------------------ C15
pub const C15: Prop = Prop {
    id: "C15",
    rule: "non-trivial: at least one foreground and background pair of the scheme is asked for a contrast above 1",
    assumptions: &[
        "rendered colors may fall short of the requested ratio by 2.5%, because the tone of an 8-bit color deviates from the requested tone by up to 0.3",
    ],
    run: c15,
};
fn check_contrasts(s: &DynamicScheme, what: &str) -> Outcome {
    let mut tones = std::collections::BTreeMap::new();
    for r in ROLES {
        let mut d = (r.make)();
        tones.insert(r.name, (d.get_tone(s), refm::tone(d.get_argb(s)), (r.getter)(s)));
    }
    let mut any = false;
    for (fg, bg, curve) in CONTRASTS {
        let want = curve_at(curve, s.contrast_level);
        // Low ratios of containers are promised against the surface that is
        // nearest to them in tone, not against every surface: a container may
        // lie on the far side of the other one.
        let other = if s.is_dark { "surface_dim" } else { "surface_bright" };
        if curve[0] == 0.0 && *bg == other && want < 3.0 {
            continue;
        }
        let (f, b) = (&tones[fg], &tones[bg]);
        let got = contrast(f.0, b.0);
        let seen = contrast(f.1, b.1);
        let getter = contrast(refm::tone(f.2), refm::tone(b.2));
        any |= want > 1.0;
        let slack = (0.025 * want).max(0.05);
        if want <= 4.5 {
            ensure!(got >= want - 1e-6, "{what}: {fg} (tone {}) on {bg} (tone {}) has contrast {got}, asked for {want}", f.0, b.0);
            ensure!(seen >= want - slack, "{what}: rendered {fg} on {bg} has contrast {seen}, asked for {want}");
            ensure!(getter >= want - slack, "{what}: the scheme's {fg} on {bg} has contrast {getter}, asked for {want}");
        } else {
            ensure!(got >= 4.45, "{what}: {fg} (tone {}) on {bg} (tone {}) has contrast {got}, asked for {want}", f.0, b.0);
            ensure!(seen >= 4.35 && getter >= 4.35, "{what}: rendered {fg} on {bg} has contrast {seen}, asked for {want}");
            if got < want - 1e-6 {
                ensure!(f.0 <= 1e-9 || f.0 >= 100.0 - 1e-9, "{what}: {fg} (tone {}) on {bg} (tone {}) has contrast {got}, asked for {want}, and is neither black nor white", f.0, b.0);
            } else {
                ensure!(seen >= want - slack && getter >= want - slack, "{what}: rendered {fg} on {bg} has contrast {seen}, asked for {want}");
            }
        }
    }
    Ok(if any { "pairs" } else { "" })
}
fn c15(ctx: &Ctx) {
    ctx.search("schemes", ctx.n(30_000, 600_000), scheme_in, |s| check_contrasts(&build(s), &show(s)));
    ctx.search("content-fidelity", ctx.n(1_500, 20_000), || (5u8..7, gen::argb(), any::<bool>(), gen::level()), |s| check_contrasts(&build(s), &show(s)));
    ctx.search("levels", ctx.n(12_000, 200_000), || (prop::sample::select(vec![0u8, 1, 2, 3, 4, 7, 8]), gen::argb(), any::<bool>(), prop::sample::select(vec![-1.0, -0.5, 0.0, 0.25, 0.5, 0.75, 1.0])), |s| {
        check_contrasts(&build(s), &show(s))
    });
}

// ------------------------------------------------------------------ C16
pub const C16: Prop = Prop {
    id: "C16",
    rule: "every scheme is non-trivial (it has seven pairs and 25 background roles); classes split light and dark",
    assumptions: &["rendered tones may deviate from the resolved tone by 0.3"],
    run: c16,
};
/// (nearer/lighter role, farther role)
const PAIRS: [(&str, &str); 7] = [
    ("primary_container", "primary"),
    ("secondary_container", "secondary"),
    ("tertiary_container", "tertiary"),
    ("error_container", "error"),
    ("primary_fixed", "primary_fixed_dim"),
    ("secondary_fixed", "secondary_fixed_dim"),
    ("tertiary_fixed", "tertiary_fixed_dim"),
];
const BACKGROUNDS: [&str; 25] = [
    "background", "surface", "surface_dim", "surface_bright", "surface_container_lowest", "surface_container_low",
    "surface_container", "surface_container_high", "surface_container_highest", "surface_variant", "surface_tint",
    "primary", "primary_container", "secondary", "secondary_container", "tertiary", "tertiary_container", "error",
    "error_container", "primary_fixed", "primary_fixed_dim", "secondary_fixed", "secondary_fixed_dim", "tertiary_fixed",
    "tertiary_fixed_dim",
];
fn check_pairs(s: &DynamicScheme, what: &str) -> Outcome {
    let t = |n: &str| {
        let mut d = (role(n).make)();
        (d.get_tone(s), refm::tone(d.get_argb(s)))
    };
    let dir = if s.is_dark { 1.0 } else { -1.0 };
    for (near, far) in PAIRS {
        let (n, f) = (t(near), t(far));
        // Away from the surface: lighter in a dark scheme, darker in a light one.
        // Fixed colors keep "fixed" lighter than "fixed dim" in both.
        let d = if near.ends_with("fixed") { n.0 - f.0 } else { (f.0 - n.0) * dir };
        let seen = if near.ends_with("fixed") { n.1 - f.1 } else { (f.1 - n.1) * dir };
        ensure!(d >= 10.0 - 1e-9, "{what}: {far} (tone {}) and {near} (tone {}) are {d} apart", f.0, n.0);
        ensure!(seen >= 9.5, "{what}: rendered {far} and {near} are {seen} apart");
    }
    for n in BACKGROUNDS {
        let (a, b) = t(n);
        ensure!(!(50.0..60.0).contains(&a), "{what}: {n} has tone {a}");
        ensure!(!(50.5..59.5).contains(&b), "{what}: rendered {n} has tone {b}");
    }
    for r in ROLES {
        let mut d = (r.make)();
        let (a, b) = (d.get_tone(s), refm::tone(d.get_argb(s)));
        ensure!((0.0..=100.0).contains(&a), "{what}: {} has tone {a}", r.name);
        ensure!((a - b).abs() <= 0.5, "{what}: {} has tone {a}, but its color has tone {b}", r.name);
    }
    Ok(if s.is_dark { "dark" } else { "light" })
}
fn c16(ctx: &Ctx) {
    ctx.search("schemes", ctx.n(30_000, 600_000), scheme_in, |s| check_pairs(&build(s), &show(s)));
    ctx.search("content-fidelity", ctx.n(1_500, 20_000), || (5u8..7, gen::argb(), any::<bool>(), gen::level()), |s| check_pairs(&build(s), &show(s)));
    ctx.search("levels", ctx.n(12_000, 200_000), || (prop::sample::select(vec![0u8, 1, 2, 3, 4, 7, 8]), gen::argb(), any::<bool>(), prop::sample::select(vec![-1.0, -0.5, 0.0, 0.25, 0.5, 0.75, 1.0])), |s| {
        check_pairs(&build(s), &show(s))
    });
}

// ---------------------------------------------------------- role resolution

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pol {
    Darker,
    Lighter,
    Nearer,
    Farther,
}
/// A color to be resolved, independent of the crate's types.
#[derive(Clone, Debug)]
pub struct Node {
    pub name: String,
    pub tone: f64,
    pub is_bg: bool,
    pub bg: Option<Box<Node>>,
    pub bg2: Option<Box<Node>>,
    pub curve: Option<[f64; 4]>,
    /// (a, b, delta, polarity, stay together)
    pub pair: Option<Box<(Node, Node, f64, Pol, bool)>>,
}

/// Resolved tone. `e` decides comparisons that are too close to call: the
/// caller tries several values.
pub fn resolve(n: &Node, level: f64, dark: bool, e: f64) -> f64 {
    let ge = |a: f64, b: f64| a >= b + e;
    // Tones that were given, not computed from a contrast, compare exactly:
    // sums of such tones carry no rounding error.
    let given = |x: f64| (x * 1024.0).fract() == 0.0;
    let tone_ge = |a: f64, b: f64| if given(a) && given(b) { a >= b } else { ge(a, b) };
    let lower = level < 0.0;
    // Best tone for one color on one background.
    let fit = |tone: f64, bg: f64, want: f64| {
        if lower || !ge(contrast(bg, tone), want) {
            ref_foreground_eps(bg, want, e)
        } else {
            tone
        }
    };
    if let Some(p) = &n.pair {
        let (a, b, delta, pol, together) = &**p;
        let bg = resolve(n.bg.as_ref().unwrap(), level, dark, e);
        let a_near = match pol {
            Pol::Nearer => true,
            Pol::Farther => false,
            Pol::Lighter => !dark,
            Pol::Darker => dark,
        };
        let (near, far) = if a_near { (a, b) } else { (b, a) };
        let dir = if dark { 1.0 } else { -1.0 };
        let mut nt = fit(near.tone, bg, curve_at(&near.curve.unwrap(), level));
        let mut ft = fit(far.tone, bg, curve_at(&far.curve.unwrap(), level));
        let apart = |n: f64, f: f64| if given(n) && given(f) { tone_ge((f - n) * dir, *delta) } else { ge((f - n) * dir, *delta) };
        if !apart(nt, ft) {
            ft = (nt + delta * dir).clamp(0.0, 100.0);
            if !apart(nt, ft) {
                nt = (ft - delta * dir).clamp(0.0, 100.0);
            }
        }
        let awkward = |t: f64| tone_ge(t, 50.0) && !tone_ge(t, 60.0);
        let push = |nt: f64, ft: f64| {
            let _ = nt;
            if dark {
                (60.0, ft.max(60.0 + delta))
            } else {
                (49.0, ft.min(49.0 - delta))
            }
        };
        if awkward(nt) {
            (nt, ft) = push(nt, ft);
        } else if awkward(ft) {
            if *together {
                (nt, ft) = push(nt, ft);
            } else {
                ft = if dark { 60.0 } else { 49.0 };
            }
        }
        return if n.name == near.name { nt } else { ft };
    }
    let Some(bgn) = &n.bg else { return n.tone };
    let bg = resolve(bgn, level, dark, e);
    let want = curve_at(&n.curve.unwrap(), level);
    let mut t = fit(n.tone, bg, want);
    if n.is_bg && tone_ge(t, 50.0) && !tone_ge(t, 60.0) {
        t = if ge(contrast(49.0, bg), want) { 49.0 } else { 60.0 };
    }
    if let Some(b2) = &n.bg2 {
        let bg2 = resolve(b2, level, dark, e);
        let (hi, lo) = (bg.max(bg2), bg.min(bg2));
        if ge(contrast(hi, t), want) && ge(contrast(lo, t), want) {
            return t;
        }
        let l = super::contrast::ref_lighter_eps(hi, want, e);
        let d = super::contrast::ref_darker_eps(lo, want, e);
        let prefers = |t: f64| (t + 0.5 + if given(t) { 0.0 } else { e }).floor() < 60.0;
        if prefers(bg) || prefers(bg2) {
            return l.unwrap_or(100.0);
        }
        return match (l, d) {
            (Some(l), None) => l,
            (_, d) => d.unwrap_or(0.0),
        };
    }
    t
}

fn plain(name: &str, tone: f64, is_bg: bool) -> Node {
    Node { name: name.into(), tone, is_bg, bg: None, bg2: None, curve: None, pair: None }
}

/// 0 primary, 1 secondary, 2 tertiary, 3 neutral, 4 neutral variant, 5 error
pub fn palette_of(name: &str) -> usize {
    match name {
        n if n.starts_with("neutral_variant") => 4,
        n if n.starts_with("neutral") => 3,
        "surface_tint" => 0,
        "surface_variant" | "on_surface_variant" | "outline" | "outline_variant" => 4,
        n if n.contains("primary") => 0,
        n if n.contains("secondary") => 1,
        n if n.contains("tertiary") => 2,
        n if n.contains("error") => 5,
        _ => 3,
    }
}
pub fn palette(s: &DynamicScheme, i: usize) -> &TonalPalette {
    [&s.primary_palette, &s.secondary_palette, &s.tertiary_palette, &s.neutral_palette, &s.neutral_variant_palette, &s.error_palette][i]
}

/// Tone, going from `tone` in whole steps, whose color comes close to the
/// wanted chroma (used by the secondary container of faithful schemes).
fn find_chroma(hue: f64, chroma: f64, tone: f64, down: bool) -> f64 {
    let at = |t: f64| Hct::from(hue, chroma, t).get_chroma();
    let mut t = tone;
    let mut best = at(t);
    if best >= chroma {
        return t;
    }
    let mut peak = best;
    loop {
        t += if down { -1.0 } else { 1.0 };
        let c = at(t);
        if c < peak || (c - chroma).abs() < 0.4 {
            return t;
        }
        peak = peak.max(c);
        if (c - chroma).abs() < (best - chroma).abs() {
            best = c;
        }
        if best >= chroma {
            return t;
        }
    }
}

/// The Material role table.
pub fn node(name: &str, s: &DynamicScheme, e: f64) -> Node {
    use material_color_utilities_rs::dynamiccolor::variant::Variant as V;
    let dark = s.is_dark;
    let lvl = s.contrast_level;
    let mono = s.variant == V::Monochrome;
    let faithful = s.variant == V::Fidelity || s.variant == V::Content;
    let dl = |d: f64, l: f64| if dark { d } else { l };
    let m = |md: f64, ml: f64, d: f64, l: f64| if mono { dl(md, ml) } else { dl(d, l) };
    let high = || Some(Box::new(plain("highest", if dark { curve_at(&[24.0, 24.0, 29.0, 34.0], lvl) } else { curve_at(&[87.0, 87.0, 80.0, 75.0], lvl) }, true)));
    let tone_of = |n: &str| resolve(&node(n, s, e), lvl, dark, e);
    const TEXT: [f64; 4] = [4.5, 7.0, 11.0, 21.0];
    const SOFT: [f64; 4] = [3.0, 4.5, 7.0, 11.0];
    const ACCENT: [f64; 4] = [3.0, 4.5, 7.0, 7.0];
    const CONTAINER: [f64; 4] = [1.0, 1.0, 3.0, 4.5];
    let on = |tone: f64, bg: Node, bg2: Option<Node>, curve: [f64; 4]| Node {
        name: name.into(),
        tone,
        is_bg: false,
        bg: Some(Box::new(bg)),
        bg2: bg2.map(Box::new),
        curve: Some(curve),
        pair: None,
    };
    let on_high = |tone: f64, curve: [f64; 4]| Node { bg: high(), ..on(tone, plain("", 0.0, false), None, curve) };
    // An accent or container: tone before adjustment and curve.
    let base = |n: &str| -> (f64, [f64; 4]) {
        match n {
            "primary" => (m(100.0, 0.0, 80.0, 40.0), ACCENT),
            "secondary" | "error" => (dl(80.0, 40.0), ACCENT),
            "tertiary" => (m(90.0, 25.0, 80.0, 40.0), ACCENT),
            "primary_container" => (if faithful { s.source_color_hct.get_tone() } else { m(85.0, 25.0, 30.0, 90.0) }, CONTAINER),
            "secondary_container" => (
                if mono {
                    dl(30.0, 85.0)
                } else if faithful {
                    find_chroma(s.secondary_palette.hue, s.secondary_palette.chroma, dl(30.0, 90.0), !dark)
                } else {
                    dl(30.0, 90.0)
                },
                CONTAINER,
            ),
            "tertiary_container" => (
                if mono {
                    dl(60.0, 49.0)
                } else if faithful {
                    // C22 decides what a palette (of a list, perhaps) answers.
                    let h = s.tertiary_palette.get_hct(s.source_color_hct.get_tone());
                    if super::palettes::ref_disliked(h.get_hue(), h.get_chroma(), h.get_tone()) {
                        Hct::from(h.get_hue(), h.get_chroma(), 70.0).get_tone()
                    } else {
                        h.get_tone()
                    }
                } else {
                    dl(30.0, 90.0)
                },
                CONTAINER,
            ),
            "error_container" => (dl(30.0, 90.0), CONTAINER),
            "primary_fixed" | "tertiary_fixed" => (m(40.0, 40.0, 90.0, 90.0), CONTAINER),
            "primary_fixed_dim" | "tertiary_fixed_dim" => (m(30.0, 30.0, 80.0, 80.0), CONTAINER),
            "secondary_fixed" => (m(80.0, 80.0, 90.0, 90.0), CONTAINER),
            _ => (m(70.0, 70.0, 80.0, 80.0), CONTAINER),
        }
    };
    let paired = |n: &str| -> Node {
        let (a, b, pol, together) = if let Some(stem) = n.strip_suffix("_fixed_dim").or(n.strip_suffix("_fixed")) {
            (format!("{stem}_fixed"), format!("{stem}_fixed_dim"), Pol::Lighter, true)
        } else {
            let stem = n.strip_suffix("_container").unwrap_or(n);
            (format!("{stem}_container"), stem.to_string(), Pol::Nearer, false)
        };
        let bare = |n: &str| {
            let (tone, c) = base(n);
            Node { curve: Some(c), ..plain(n, tone, true) }
        };
        Node { bg: high(), pair: Some(Box::new((bare(&a), bare(&b), 10.0, pol, together))), ..bare(n) }
    };
    let key = |i: usize| plain(name, palette(s, i).key_color.get_tone(), false);
    match name {
        "primary_palette_key_color" => key(0),
        "secondary_palette_key_color" => key(1),
        "tertiary_palette_key_color" => key(2),
        "neutral_palette_key_color" => key(3),
        "neutral_variant_palette_key_color" => key(4),
        "background" | "surface" => plain(name, dl(6.0, 98.0), true),
        "surface_dim" => plain(name, if dark { 6.0 } else { curve_at(&[87.0, 87.0, 80.0, 75.0], lvl) }, true),
        "surface_bright" => plain(name, if dark { curve_at(&[24.0, 24.0, 29.0, 34.0], lvl) } else { 98.0 }, true),
        "surface_container_lowest" => plain(name, if dark { curve_at(&[4.0, 4.0, 2.0, 0.0], lvl) } else { 100.0 }, true),
        "surface_container_low" => plain(name, curve_at(&if dark { [10.0, 10.0, 11.0, 12.0] } else { [96.0, 96.0, 96.0, 95.0] }, lvl), true),
        "surface_container" => plain(name, curve_at(&if dark { [12.0, 12.0, 16.0, 20.0] } else { [94.0, 94.0, 92.0, 90.0] }, lvl), true),
        "surface_container_high" => plain(name, curve_at(&if dark { [17.0, 17.0, 21.0, 25.0] } else { [92.0, 92.0, 88.0, 85.0] }, lvl), true),
        "surface_container_highest" => plain(name, curve_at(&if dark { [22.0, 22.0, 26.0, 30.0] } else { [90.0, 90.0, 84.0, 80.0] }, lvl), true),
        "surface_variant" => plain(name, dl(30.0, 90.0), true),
        "surface_tint" => plain(name, dl(80.0, 40.0), true),
        "inverse_surface" => plain(name, dl(90.0, 20.0), false),
        "shadow" | "scrim" => plain(name, 0.0, false),
        "on_background" => on(dl(90.0, 10.0), plain("background", dl(6.0, 98.0), true), None, [3.0, 3.0, 4.5, 7.0]),
        "on_surface" => on_high(dl(90.0, 10.0), TEXT),
        "on_surface_variant" => on_high(dl(80.0, 30.0), SOFT),
        "outline" => on_high(dl(60.0, 50.0), [1.5, 3.0, 4.5, 7.0]),
        "outline_variant" => on_high(dl(30.0, 80.0), CONTAINER),
        "inverse_on_surface" => on(dl(20.0, 95.0), node("inverse_surface", s, e), None, TEXT),
        "inverse_primary" => on(dl(40.0, 80.0), node("inverse_surface", s, e), None, ACCENT),
        "on_primary" => on(m(10.0, 90.0, 20.0, 100.0), paired("primary"), None, TEXT),
        "on_secondary" => on(m(10.0, 100.0, 20.0, 100.0), paired("secondary"), None, TEXT),
        "on_tertiary" => on(m(10.0, 90.0, 20.0, 100.0), paired("tertiary"), None, TEXT),
        "on_error" => on(dl(20.0, 100.0), paired("error"), None, TEXT),
        "on_primary_container" | "on_tertiary_container" | "on_secondary_container" => {
            let c = &name[3..];
            let t = if faithful {
                ref_foreground_eps(tone_of(c), 4.5, e)
            } else if mono && c != "secondary_container" {
                dl(0.0, 100.0)
            } else {
                dl(90.0, 10.0)
            };
            on(t, paired(c), None, TEXT)
        }
        "on_error_container" => on(dl(90.0, 10.0), paired("error_container"), None, TEXT),
        "on_primary_fixed" | "on_tertiary_fixed" | "on_secondary_fixed" => {
            let f = &name[3..];
            let t = if mono && f != "secondary_fixed" { 100.0 } else { 10.0 };
            on(t, paired(&format!("{f}_dim")), Some(paired(f)), TEXT)
        }
        "on_primary_fixed_variant" | "on_tertiary_fixed_variant" | "on_secondary_fixed_variant" => {
            let f = name[3..].strip_suffix("_variant").unwrap();
            let t = if !mono {
                30.0
            } else if f == "secondary_fixed" {
                25.0
            } else {
                90.0
            };
            on(t, paired(&format!("{f}_dim")), Some(paired(f)), SOFT)
        }
        n => paired(n),
    }
}

const EPS: [f64; 3] = [0.0, 1e-9, -1e-9];

// ------------------------------------------------------------------ C17
pub const C17: Prop = Prop {
    id: "C17",
    rule: "every scheme is non-trivial (54 roles are resolved); classes name the variant",
    assumptions: &["the role table is the published Material 3 one", "comparisons within 1e-9 of a tie may go either way"],
    run: c17,
};
fn check_roles(s: &DynamicScheme, v: u8, what: &str) -> Outcome {
    check_roles_of(s, v, what, None)
}
/// `lists`: the colors that five of the palettes were made from.
fn check_roles_of(s: &DynamicScheme, v: u8, what: &str, lists: Option<&[Vec<i64>]>) -> Outcome {
    for r in ROLES {
        let mut d = (r.make)();
        let got = d.get_tone(s);
        let mut want = f64::NAN;
        let ok = EPS.iter().any(|e| {
            let w = resolve(&node(r.name, s, *e), s.contrast_level, s.is_dark, *e);
            if want.is_nan() {
                want = w;
            }
            close(got, w, 1e-9, 1e-6)
        });
        ensure!(ok, "{what}: {} has tone {got}, want {want}", r.name);
        let p = palette(s, palette_of(r.name));
        // A palette made from a list keeps its 13 colors.
        let given = lists.and_then(|l| l.get(palette_of(r.name))).and_then(|l| super::palettes::TONES.iter().position(|t| *t as f64 == got).map(|i| l[i]));
        let w = given.unwrap_or_else(|| Hct::from(p.hue, p.chroma, got).to_int());
        let a = d.get_argb(s);
        ensure!(a == w, "{what}: {} is {a:#x}, but tone {got} of its palette ({}, {}) is {w:#x}", r.name, p.hue, p.chroma);
        ensure!(d.get_hct(s).to_int() == w, "{what}: {} as HCT is {:#x}, want {w:#x}", r.name, d.get_hct(s).to_int());
        ensure!((r.getter)(s) == w, "{what}: the scheme's {} is {:#x}, want {w:#x}", r.name, (r.getter)(s));
    }
    let high = material_color_utilities_rs::dynamiccolor::material_dynamic_colors::MaterialDynamicColors::highest_surface(s).get_argb(s);
    let want = if s.is_dark { s.get_surface_bright() } else { s.get_surface_dim() };
    ensure!(high == want, "{what}: the highest surface is {high:#x}, want {want:#x}");
    Ok(NAMES[v as usize])
}
fn c17(ctx: &Ctx) {
    ctx.search("schemes", ctx.n(12_000, 300_000), scheme_in, |s| check_roles(&build(s), s.0, &show(s)));
    ctx.search("palettes", ctx.n(16_000, 400_000), custom_in, |s| check_roles(&custom(s), s.0, &show_custom(s)));
    ctx.search("levels", ctx.n(6_000, 100_000), || (0u8..9, gen::argb(), any::<bool>(), prop::sample::select(vec![-1.0, -0.5, -1e-9, 0.0, 0.25, 0.5, 0.75, 1.0]), prop::collection::vec((gen::hue(), gen::chroma()), 5..=5)), |s| {
        check_roles(&custom(s), s.0, &show_custom(s))
    });
    // Palettes made from lists of colors.
    ctx.search("list-palettes", ctx.n(4_000, 80_000), || (custom_in(), prop::collection::vec(super::palettes::color_list(13), 5..=5)), |(base, lists)| {
        let p: Vec<TonalPalette> = lists.iter().map(|l| TonalPalette::from_list(l)).collect();
        let s = DynamicScheme::new(base.1, schemes::variant(base.0), Some(base.3), base.2, p[0].clone(), p[1].clone(), p[2].clone(), p[3].clone(), p[4].clone());
        check_roles_of(&s, base.0, &format!("{} over lists {lists:x?}", show_custom(base)), Some(lists))
    });
    // Schemes that differ in one component from the one before.
    ctx.search("neighbours", ctx.n(4_000, 80_000), || (custom_in(), prop::collection::vec((0u8..13, gen::level(), gen::argb()), 1..5)), |(base, tweaks)| {
        let mut s = custom(base);
        check_roles(&s, base.0, &show_custom(base))?;
        for (i, (k, x, a)) in tweaks.iter().enumerate() {
            tweak(&mut s, *k, *x, *a);
            check_roles(&s, base.0, &format!("{} after changes {:?}", show_custom(base), &tweaks[..=i]))?;
        }
        Ok(NAMES[base.0 as usize])
    });
    ctx.search("default-level", ctx.n(2_000, 20_000), custom_in, |s| {
        let p: Vec<TonalPalette> = (0..5).map(|i| TonalPalette::of(s.4[i].0, s.4[i].1)).collect();
        let d = DynamicScheme::new(s.1, schemes::variant(s.0), None, s.2, p[0].clone(), p[1].clone(), p[2].clone(), p[3].clone(), p[4].clone());
        ensure!(d.contrast_level == 0.0, "default contrast level is {}", d.contrast_level);
        check_roles(&d, s.0, "default level")
    });
}

// ------------------------------------------------------------------ C18
pub const C18: Prop = Prop {
    id: "C18",
    rule: "non-trivial: the history uses at least two different schemes on one color object; classes tell histories longer than the cache",
    assumptions: &[],
    run: c18,
};
/// One component of a scheme is changed.
fn tweak(s: &mut DynamicScheme, k: u8, x: f64, a: i64) {
    match k {
        0 => s.is_dark = !s.is_dark,
        1 => s.contrast_level = x,
        2 => s.variant = schemes::variant((a.rem_euclid(9)) as u8),
        3 => {
            s.source_color_argb = a;
            s.source_color_hct = Hct::from_int(a);
        }
        4 => s.primary_palette = TonalPalette::of(refm::deg(a as f64), 20.0 + 10.0 * x.abs()),
        5 => s.secondary_palette = TonalPalette::of(refm::deg(a as f64), 20.0 + 10.0 * x.abs()),
        6 => s.tertiary_palette = TonalPalette::of(refm::deg(a as f64), 20.0 + 10.0 * x.abs()),
        7 => s.neutral_palette = TonalPalette::of(refm::deg(a as f64), 20.0 + 10.0 * x.abs()),
        8 => s.neutral_variant_palette = TonalPalette::of(refm::deg(a as f64), 20.0 + 10.0 * x.abs()),
        9 => s.error_palette = TonalPalette::of(refm::deg(a as f64), 20.0 + 10.0 * x.abs()),
        10 => s.source_color_hct = Hct::from_int(a),
        11 => s.source_color_argb = a,
        // no change in meaning: fill palette caches
        _ => {
            let _ = s.primary_palette.get(40);
            let _ = s.neutral_palette.get_as_list();
        }
    }
}
fn c18(ctx: &Ctx) {
    ctx.search(
        "histories",
        ctx.n(12_000, 300_000),
        || {
            (
                custom_in(),
                prop::collection::vec((0u8..13, gen::level(), gen::argb()), 0..8),
                0usize..ROLES.len(),
                prop::collection::vec((0usize..8, 0u8..4), 2..24),
            )
        },
        |(base, tweaks, ri, ops)| {
            let first = custom(base);
            let mut pool = vec![first];
            for (k, x, a) in tweaks {
                // each scheme differs from one earlier scheme in one component
                let mut s = pool[(*a as usize) % pool.len()].clone();
                tweak(&mut s, *k, *x, *a);
                pool.push(s);
            }
            let r = &ROLES[*ri];
            let mut shared = (r.make)();
            let mut used = std::collections::BTreeSet::new();
            for (k, (i, how)) in ops.iter().enumerate() {
                let s = &pool[i % pool.len()];
                used.insert(i % pool.len());
                let fresh = (r.make)().get_argb(s);
                let got = match how {
                    0 => shared.get_argb(s),
                    1 => shared.get_hct(s).to_int(),
                    2 => s.get_argb(&mut shared),
                    _ => s.get_hct(&mut shared).to_int(),
                };
                ensure!(got == fresh, "step {k}: {} of scheme {} is {got:#x} from an object used before, {fresh:#x} from a new one", r.name, i % pool.len());
                ensure!((r.getter)(s) == fresh, "step {k}: the scheme's {} is {:#x}, the role's {fresh:#x}", r.name, (r.getter)(s));
                let t = shared.get_tone(s);
                ensure!(t == (r.make)().get_tone(s), "step {k}: tone depends on history");
            }
            Ok(if used.len() < 2 {
                ""
            } else if used.len() > 5 {
                "beyond-cache"
            } else {
                "several"
            })
        },
    );
    // One color object asked about hundreds of schemes.
    ctx.search("long", ctx.n(160, 3_000), || (custom_in(), 0usize..ROLES.len(), any::<u64>(), gen::steps(800), 0u8..4), |(base, ri, seed, n, what)| {
        let r = &ROLES[*ri];
        let mut rnd = gen::Mix(*seed);
        let mut pool = Vec::new();
        for k in 0..*n {
            let mut s = custom(base);
            match what {
                0 => s.contrast_level = -1.0 + 2.0 * k as f64 / *n as f64,
                1 => {
                    let c = 0xff000000 | (rnd.next() as i64 & 0xffffff);
                    tweak(&mut s, 3, 0.0, c);
                    s.primary_palette = TonalPalette::of(refm::deg(k as f64), 30.0);
                    s.neutral_palette = TonalPalette::of(refm::deg(k as f64), 6.0);
                }
                2 => tweak(&mut s, (4 + rnd.below(6)) as u8, rnd.unit(), k as i64),
                _ => {
                    for _ in 0..2 {
                        tweak(&mut s, rnd.below(10) as u8, 2.0 * rnd.unit() - 1.0, 0xff000000 | (rnd.next() as i64 & 0xffffff));
                    }
                }
            }
            let want = (r.make)().get_argb(&s);
            pool.push((s, want));
        }
        let mut shared = (r.make)();
        let mut step = |i: usize, k: u32, via: bool| -> Result<(), String> {
            let (s, want) = &pool[i];
            let got = if via { s.get_argb(&mut shared) } else { shared.get_hct(s).to_int() };
            ensure!(got == *want, "step {k}: {} of scheme {i} is {got:#x} from an object used before, {want:#x} from a new one", r.name);
            Ok(())
        };
        for k in 0..*n {
            step(k as usize, k, k % 3 == 0)?;
            if rnd.below(3) == 0 {
                step(rnd.below(k as u64 + 1) as usize, k, true)?;
            }
        }
        for k in 0..*n {
            step(rnd.below(*n as u64) as usize, n + k, k % 2 == 0)?;
        }
        Ok("long")
    });
    ctx.search(
        "scheme-equality",
        ctx.n(60_000, 1_000_000),
        || (custom_in(), prop::collection::vec((0u8..13, gen::level(), gen::argb()), 0..3)),
        |(base, tweaks)| {
            let a = custom(base);
            let mut b = custom(base);
            for (k, x, c) in tweaks {
                tweak(&mut b, *k, *x, *c);
            }
            let pal = |x: &TonalPalette, y: &TonalPalette| x.hue == y.hue && x.chroma == y.chroma;
            let same = a.source_color_argb == b.source_color_argb
                && a.source_color_hct.to_int() == b.source_color_hct.to_int()
                && format!("{:?}", a.variant) == format!("{:?}", b.variant)
                && a.is_dark == b.is_dark
                && a.contrast_level == b.contrast_level
                && (0..6).all(|i| pal(palette(&a, i), palette(&b, i)));
            ensure!((a == b) == same && (b == a) == same, "schemes compare {} but their components {}", a == b, same);
            ensure!(!same || hash_of(&a) == hash_of(&b), "equal schemes hash differently");
            let c = b.clone();
            ensure!(c == b && hash_of(&c) == hash_of(&b), "a clone differs");
            Ok(if same { "equal" } else { "different" })
        },
    );
    ctx.search("zero-levels", ctx.n(2_000, 20_000), custom_in, |base| {
        let mut a = custom(base);
        let mut b = custom(base);
        a.contrast_level = 0.0;
        b.contrast_level = -0.0;
        a.primary_palette = TonalPalette::of(0.0, base.4[0].1);
        b.primary_palette = TonalPalette::of(-0.0, base.4[0].1);
        ensure!(a == b && hash_of(&a) == hash_of(&b), "schemes that differ in the sign of zero hash differently");
        Ok("zero")
    });
}

// ------------------------------------------------------------------ C19
pub const C19: Prop = Prop {
    id: "C19",
    rule: "non-trivial: the color has a background; classes name its shape",
    assumptions: &["curves with values in [1, 21], deltas 0 to 30, backgrounds nested up to two deep", "comparisons within 1e-9 of a tie may go either way"],
    run: c19,
};
/// shape, tones, curves, flags
type UserIn = (u8, Vec<f64>, Vec<f64>, Vec<bool>, f64, bool, f64, u8, i64);
fn user_in() -> gen::S<UserIn> {
    (
        0u8..7,
        prop::collection::vec(gen::tone(), 6..=6),
        prop::collection::vec(gen::ratio(), 12..=12),
        prop::collection::vec(any::<bool>(), 4..=4),
        gen::level(),
        any::<bool>(),
        prop_oneof![2 => gen::real(0.0, 30.0), 1 => Just(10.0), 1 => Just(15.0)],
        0u8..4,
        gen::argb(),
    )
        .boxed()
}
fn user_node(u: &UserIn) -> Node {
    let (shape, t, r, f, _, _, delta, pol, _) = u;
    let c = |i: usize| {
        let mut c = [r[3 * i], r[3 * i], r[3 * i + 1], r[3 * i + 2]];
        if f[3] {
            c.sort_by(|a, b| a.partial_cmp(b).unwrap());
        }
        Some(c)
    };
    let pol = [Pol::Darker, Pol::Lighter, Pol::Nearer, Pol::Farther][*pol as usize];
    let bg = plain("bg", t[0], f[0]);
    let nested = Node { bg: Some(Box::new(plain("bg0", t[1], f[1]))), curve: c(1), ..plain("bg1", t[0], f[0]) };
    let pair = |own: &str, bg: Node| {
        let mk = |n: &str, tone: f64, i: usize| Node { curve: c(i), ..plain(n, tone, true) };
        let (a, b) = (mk("a", t[2], 2), mk("b", t[3], 3));
        let me = if own == "a" { a.clone() } else { b.clone() };
        Node { bg: Some(Box::new(bg)), pair: Some(Box::new((a, b, *delta, pol, f[2]))), ..me }
    };
    match shape {
        0 => plain("own", t[4], f[0]),
        1 => Node { bg: Some(Box::new(bg)), curve: c(0), ..plain("own", t[4], f[1]) },
        2 => Node { bg: Some(Box::new(nested)), curve: c(0), ..plain("own", t[4], f[2]) },
        3 => Node { bg: Some(Box::new(bg)), bg2: Some(Box::new(plain("second", t[5], f[1]))), curve: c(0), ..plain("own", t[4], f[2]) },
        4 => pair("a", bg),
        5 => pair("b", nested),
        _ => Node { bg: Some(Box::new(pair("b", bg.clone()))), bg2: Some(Box::new(pair("a", bg))), curve: c(0), ..plain("own", t[4], f[2]) },
    }
}
fn user_color(n: &Node) -> DynamicColor {
    let curve = |c: &[f64; 4]| ContrastCurve::new(c[0], c[1], c[2], c[3]);
    let (tone, bg, bg2, pair) = (n.tone, n.bg.clone(), n.bg2.clone(), n.pair.clone());
    let bg: Option<Box<dyn Fn(&DynamicScheme) -> DynamicColor>> = match bg {
        Some(b) => Some(Box::new(move |_| user_color(&b))),
        None => None,
    };
    let bg2: Option<Box<dyn Fn(&DynamicScheme) -> DynamicColor>> = match bg2 {
        Some(b) => Some(Box::new(move |_| user_color(&b))),
        None => None,
    };
    let bgn = n.bg.clone();
    let pair: Option<Box<dyn Fn(&DynamicScheme) -> ToneDeltaPair>> = match pair {
        Some(p) => Some(Box::new(move |_| {
            let with_bg = |m: &Node| user_color(&Node { bg: bgn.clone(), ..m.clone() });
            let pol = match p.3 {
                Pol::Darker => TonePolarity::Darker,
                Pol::Lighter => TonePolarity::Lighter,
                Pol::Nearer => TonePolarity::Nearer,
                Pol::Farther => TonePolarity::Farther,
            };
            ToneDeltaPair::new(with_bg(&p.0), with_bg(&p.1), p.2, pol, p.4)
        })),
        None => None,
    };
    if n.name == "own" {
        DynamicColor::new(&n.name, Box::new(|s| &s.primary_palette), Box::new(move |_| tone), n.is_bg, bg, bg2, n.curve.as_ref().map(curve), pair)
    } else {
        DynamicColor::from_palette(Some(&n.name), Box::new(|s| &s.primary_palette), Box::new(move |_| tone), Some(n.is_bg), bg, bg2, n.curve.as_ref().map(curve), pair)
    }
}
fn c19(ctx: &Ctx) {
    // A fixed scheme per source color is enough: only its level and darkness
    // enter the resolution.
    ctx.search("resolve", ctx.n(250_000, 5_000_000), user_in, |u| {
        thread_local! {
            static BASE: DynamicScheme = schemes::scheme(2, 0xff4285f4, false, 0.0);
        }
        let mut s = BASE.with(|b| b.clone());
        s.contrast_level = u.4;
        s.is_dark = u.5;
        let n = user_node(u);
        let mut d = user_color(&n);
        let got = d.get_tone(&s);
        let mut want = f64::NAN;
        let ok = EPS.iter().any(|e| {
            let w = resolve(&n, u.4, u.5, *e);
            if want.is_nan() {
                want = w;
            }
            close(got, w, 1e-9, 1e-6)
        });
        ensure!(ok, "shape {}, level {}, {}: tone {got}, want {want} for {n:?}", u.0, u.4, if u.5 { "dark" } else { "light" });
        let argb = d.get_argb(&s);
        let w = Hct::from(s.primary_palette.hue, s.primary_palette.chroma, got).to_int();
        ensure!(argb == w, "tone {got} gives {argb:#x}, want {w:#x}");
        Ok(["", "on-background", "nested", "two-backgrounds", "pair", "pair-nested", "on-pair"][u.0 as usize])
    });
    // Without options, a color is its tone.
    ctx.search("bare", ctx.n(20_000, 200_000), || (gen::argb(), gen::tone(), any::<bool>(), gen::level()), |(a, t, dark, level)| {
        let s = schemes::scheme(2, *a, *dark, *level);
        let t = *t;
        let mut d = DynamicColor::from_palette(None, Box::new(|s| &s.tertiary_palette), Box::new(move |_| t), None, None, None, None, None);
        ensure!(!d.is_background && d.name.is_empty(), "defaults");
        ensure!(d.get_tone(&s) == t, "tone {t} became {}", d.get_tone(&s));
        let w = Hct::from(s.tertiary_palette.hue, s.tertiary_palette.chroma, t).to_int();
        ensure!(d.get_argb(&s) == w, "tone {t} is {:#x}, want {w:#x}", d.get_argb(&s));
        Ok("bare")
    });
}

// ------------------------------------------------------------------ C20
pub const C20: Prop = Prop {
    id: "C20",
    rule: "non-trivial: source colors that are not gray; rotation tables with at least two entries",
    assumptions: &["the temperature based hues of content and fidelity are taken from the crate's own complement and analogues, which C27 decides"],
    run: c20,
};
/// Rotation of a hue by the step function given by breakpoints.
fn rotated(h: f64, hues: &[f64], rot: &[f64]) -> f64 {
    if rot.len() == 1 {
        return refm::deg(h + rot[0]);
    }
    match (0..hues.len() - 1).find(|i| h >= hues[*i] && h < hues[i + 1]) {
        Some(i) => refm::deg(h + rot[i]),
        None => h,
    }
}
fn expected(v: u8, src: &Hct) -> [(f64, f64); 5] {
    let (h, c) = (src.get_hue(), src.get_chroma());
    let r = |hues: [f64; 9], rot: [f64; 9]| rotated(h, &hues, &rot);
    match v {
        0 => [(h, 0.0); 5],
        1 => [(h, 12.0), (h, 8.0), (h, 16.0), (h, 2.0), (h, 2.0)],
        2 => [(h, 36.0), (h, 16.0), (h + 60.0, 24.0), (h, 6.0), (h, 8.0)],
        3 => {
            let hues = [0.0, 41.0, 61.0, 101.0, 131.0, 181.0, 251.0, 301.0, 360.0];
            [
                (h, 200.0),
                (r(hues, [18.0, 15.0, 10.0, 12.0, 15.0, 18.0, 15.0, 12.0, 12.0]), 24.0),
                (r(hues, [35.0, 30.0, 20.0, 25.0, 30.0, 35.0, 30.0, 25.0, 25.0]), 32.0),
                (h, 10.0),
                (h, 12.0),
            ]
        }
        4 => {
            let hues = [0.0, 21.0, 51.0, 121.0, 151.0, 191.0, 271.0, 321.0, 360.0];
            [
                (h + 240.0, 40.0),
                (r(hues, [45.0, 95.0, 45.0, 20.0, 45.0, 90.0, 45.0, 45.0, 45.0]), 24.0),
                (r(hues, [120.0, 120.0, 20.0, 45.0, 20.0, 15.0, 20.0, 120.0, 120.0]), 32.0),
                (h + 15.0, 8.0),
                (h + 15.0, 12.0),
            ]
        }
        5 | 6 => {
            let t = if v == 5 {
                TemperatureCache::new(src.clone()).analogous(Some(3), Some(6)).pop().unwrap()
            } else {
                TemperatureCache::new(src.clone()).get_complement()
            };
            let t = DislikeAnalyzer::fix_if_disliked(&t);
            [(h, c), (h, (c - 32.0).max(c * 0.5)), (t.get_hue(), t.get_chroma()), (h, c / 8.0), (h, c / 8.0 + 4.0)]
        }
        7 => [(h, 48.0), (h, 16.0), (h + 60.0, 24.0), (h, 0.0), (h, 0.0)],
        _ => [(h - 50.0, 48.0), (h - 50.0, 36.0), (h, 36.0), (h, 10.0), (h, 16.0)],
    }
}
fn check_palettes(s: &SchemeIn) -> Outcome {
    let d = build(s);
    let src = Hct::from_int(s.1);
    let want = expected(s.0, &src);
    let what = show(s);
    for i in 0..6 {
        let p = palette(&d, i);
        let (h, c) = if i == 5 { (25.0, 84.0) } else { want[i] };
        ensure!(dh(p.hue, h) <= 1e-6 && close(p.chroma, c, 1e-9, 1e-9), "{what}: palette {i} is ({}, {}), want ({h}, {c})", p.hue, p.chroma);
        // What a palette gives is the color of that hue and chroma.
        let t = (s.1 % 101) as f64;
        let w = Hct::from(p.hue, p.chroma, t).to_int();
        ensure!(p.get_hct(t).to_int() == w, "{what}: palette {i} at tone {t} is {:#x}, want {w:#x}", p.get_hct(t).to_int());
    }
    ensure!(d.source_color_argb == s.1 && d.source_color_hct.to_int() == s.1, "{what}: source color {:#x}", d.source_color_argb);
    ensure!(d.is_dark == s.2 && d.contrast_level == s.3, "{what}: dark {}, level {}", d.is_dark, d.contrast_level);
    ensure!(d.variant == schemes::variant(s.0), "{what}: variant {:?}", d.variant);
    let [r, g, b] = refm::rgb(s.1);
    Ok(if r == g && g == b { "" } else { NAMES[s.0 as usize] })
}
fn c20(ctx: &Ctx) {
    ctx.search("variants", ctx.n(60_000, 1_000_000), || (prop::sample::select(vec![0u8, 1, 2, 3, 4, 7, 8]), gen::argb(), any::<bool>(), gen::level()), check_palettes);
    // Hues next to the breakpoints of the rotation tables.
    ctx.search("breakpoints", ctx.n(20_000, 300_000), || (3u8..5, gen::hue(), 5.0..100.0f64, 10.0..95.0f64, any::<bool>()), |(v, h, c, t, dark)| {
        check_palettes(&(*v, Hct::from(*h, *c, *t).to_int(), *dark, 0.0))
    });
    ctx.search("content-fidelity", ctx.n(1_600, 20_000), || (5u8..7, gen::argb(), any::<bool>(), gen::level()), check_palettes);
    // Neighbouring source colors, other variants of the same color, in a row.
    ctx.search("neighbours", ctx.n(6_000, 100_000), || (gen::argb(), gen::near_steps(5), prop::collection::vec((prop_oneof![9 => 0u8..5, 6 => 7u8..9, 1 => 5u8..7], any::<bool>(), gen::level()), 6..=6)), |(a, steps, how)| {
        let mut a = *a;
        let mut label = "";
        for k in 0..=steps.len() {
            if k > 0 && steps[k - 1].1 < 0.7 {
                a = gen::near_argb(a, &steps[k - 1]);
            }
            label = check_palettes(&(how[k].0, a, how[k].1, how[k].2))?;
        }
        Ok(label)
    });
    ctx.search("refused", ctx.n(20_000, 200_000), || (gen::argb(), prop::collection::vec(0.0..360.0f64, 0..9), prop::collection::vec(0.0..360.0f64, 0..9)), |(a, h, r): &(i64, Vec<f64>, Vec<f64>)| {
        if h.len() == r.len() {
            return Ok("");
        }
        let src = Hct::from_int(*a);
        let got = crate::engine::guarded(|| DynamicScheme::get_rotated_hue(&src, h, r));
        ensure!(got.is_err(), "{} breakpoints with {} rotations are accepted", h.len(), r.len());
        Ok("refused")
    });
    ctx.search("rotation", ctx.n(200_000, 2_000_000), || {
        (
            gen::argb(),
            prop::collection::vec(gen::real(0.0, 360.0), 0..9),
            prop::collection::vec(gen::real(-360.0, 360.0), 12..=12),
            any::<bool>(),
            any::<bool>(),
        )
    }, |(a, cuts, rots, full, on)| {
        let src = Hct::from_int(*a);
        let mut hues = cuts.clone();
        if *on && !hues.is_empty() {
            // a breakpoint exactly on the hue
            hues[0] = src.get_hue();
        }
        if *full {
            hues.push(0.0);
            hues.push(360.0);
        }
        if hues.is_empty() {
            hues.push(0.0);
        }
        hues.sort_by(|a, b| a.partial_cmp(b).unwrap());
        hues.dedup();
        let rot = rots[..hues.len()].to_vec();
        let got = DynamicScheme::get_rotated_hue(&src, &hues, &rot);
        let want = rotated(src.get_hue(), &hues, &rot);
        ensure!(dh(got, want) <= 1e-9, "hue {} with {hues:?} and {rot:?} became {got}, want {want}", src.get_hue());
        ensure!((0.0..360.0).contains(&got), "rotated hue {got}");
        Ok(if hues.len() > 1 { "table" } else { "single" })
    });
}
