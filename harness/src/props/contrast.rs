//! C11-C14: contrast between tones.
use super::Prop;
use crate::engine::{Ctx, Outcome};
use crate::gen;
use crate::refm::{self, close, contrast};
use material_color_utilities_rs::{
    contrast::contrast::Contrast,
    dynamiccolor::{dynamic_color::DynamicColor, src::contrast_curve::ContrastCurve},
};
use proptest::prelude::*;

fn any_tone() -> gen::S<f64> {
    prop_oneof![6 => gen::tone(), 1 => gen::real(-50.0, 150.0)].boxed()
}

// ------------------------------------------------------------------ C11
pub const C11: Prop = Prop {
    id: "C11",
    rule: "non-trivial: two different tones, both inside (0, 100); clamped tones are their own class",
    assumptions: &[],
    run: c11,
};
fn c11(ctx: &Ctx) {
    ctx.search("ratio", ctx.n(1_500_000, 20_000_000), || (any_tone(), any_tone(), 0.0..20.0f64), |(a, b, d)| {
        let r = Contrast::ratio_of_tones(*a, *b);
        ensure!(close(r, contrast(*a, *b), 1e-9, 1e-9), "ratio_of_tones({a}, {b}) = {r}, want {}", contrast(*a, *b));
        ensure!(close(r, Contrast::ratio_of_tones(*b, *a), 1e-12, 0.0), "ratio_of_tones({a}, {b}) is not symmetric");
        ensure!((1.0..=21.0 + 1e-9).contains(&r), "ratio_of_tones({a}, {b}) = {r}");
        // Moving the lighter tone up never lowers the ratio.
        let (lo, hi) = (a.min(*b), a.max(*b));
        let up = Contrast::ratio_of_tones(lo, hi + d);
        ensure!(up >= r - 1e-12, "ratio_of_tones({lo}, {}) = {up} is below ratio_of_tones({lo}, {hi}) = {r}", hi + d);
        let down = Contrast::ratio_of_tones(lo - d, hi);
        ensure!(down >= r - 1e-12, "ratio_of_tones({}, {hi}) = {down} is below ratio_of_tones({lo}, {hi}) = {r}", lo - d);
        Ok(if a == b {
            ""
        } else if (0.0..=100.0).contains(a) && (0.0..=100.0).contains(b) {
            "inside"
        } else {
            "clamped"
        })
    });
    ctx.pinned("ends", vec![(0.0, 100.0, 21.0), (100.0, 0.0, 21.0), (0.0, 0.0, 1.0), (100.0, 100.0, 1.0), (-5.0, 120.0, 21.0)], |(a, b, w): &(f64, f64, f64)| {
        ensure!(close(Contrast::ratio_of_tones(*a, *b), *w, 1e-12, 0.0), "ratio_of_tones({a}, {b})");
        Ok("ends")
    });
}

// ------------------------------------------------------------------ C12
pub const C12: Prop = Prop {
    id: "C12",
    rule: "non-trivial: the tone is inside [0, 100] and a ratio above 1 is asked for; classes tell reachable from unreachable requests",
    assumptions: &["ratios from 1 to 21, as documented, and some beyond 21, which are unreachable", "results within 1e-7 of the end of the tone range are only required to be one of the two answers"],
    run: c12,
};
/// None: unreachable; Err: too close to call.
fn ref_lighter(t: f64, r: f64) -> Result<Option<f64>, ()> {
    if !(0.0..=100.0).contains(&t) {
        return Ok(None);
    }
    let y = r * (refm::y_of_l(t) + 5.0) - 5.0;
    let l = refm::l_of_y(y) + 0.4;
    if (l - 100.0).abs() < 1e-7 {
        return Err(());
    }
    Ok(if l > 100.0 { None } else { Some(l) })
}
fn ref_darker(t: f64, r: f64) -> Result<Option<f64>, ()> {
    if !(0.0..=100.0).contains(&t) {
        return Ok(None);
    }
    let y = (refm::y_of_l(t) + 5.0) / r - 5.0;
    let l = refm::l_of_y(y) - 0.4;
    if l.abs() < 1e-7 {
        return Err(());
    }
    Ok(if l < 0.0 { None } else { Some(l) })
}
fn one_side(name: &str, t: f64, r: f64, got: f64, unsafe_got: f64, want: Result<Option<f64>, ()>, limit: f64) -> Outcome {
    match want {
        Ok(None) => {
            ensure!(got == -1.0, "{name}({t}, {r}) = {got}, but no tone reaches that ratio");
            ensure!(unsafe_got == limit, "{name}_unsafe({t}, {r}) = {unsafe_got}, want {limit}");
            Ok("unreachable")
        }
        Ok(Some(w)) => {
            ensure!(close(got, w, 1e-9, 1e-6), "{name}({t}, {r}) = {got}, want {w}");
            ensure!(unsafe_got == got, "{name}_unsafe({t}, {r}) = {unsafe_got}, want {got}");
            let c = contrast(t, got);
            ensure!(c >= r - 1e-9, "{name}({t}, {r}) = {got} only has contrast {c}");
            Ok("reachable")
        }
        Err(()) => {
            ensure!(got == -1.0 || (got - limit).abs() < 1e-5, "{name}({t}, {r}) = {got}");
            ensure!((unsafe_got - limit).abs() < 1e-5, "{name}_unsafe({t}, {r}) = {unsafe_got}");
            Ok("")
        }
    }
}
fn c12(ctx: &Ctx) {
    let req = || {
        prop_oneof![
            5 => (any_tone(), gen::ratio()),
            1 => (gen::tone(), 21.0..40.0f64),
            2 => (gen::tone(), gen::tone()).prop_map(|(a, b)| (a, contrast(a, b))),
            1 => (gen::tone(), -0.01..0.01f64).prop_map(|(a, d)| (a, (contrast(a, if d > 0.0 { 99.6 } else { 100.0 }) + d).max(1.0))),
            1 => (gen::tone(), -0.01..0.01f64).prop_map(|(a, d)| (a, (contrast(a, if d > 0.0 { 0.4 } else { 0.0 }) + d).max(1.0))),
        ]
    };
    ctx.search("lighter", ctx.n(1_000_000, 15_000_000), req, |(t, r)| {
        one_side("lighter", *t, *r, Contrast::lighter(*t, *r), Contrast::lighter_unsafe(*t, *r), ref_lighter(*t, *r), 100.0)
    });
    ctx.search("neighbours", ctx.n(100_000, 1_000_000), || (req(), gen::near_steps(4)), |((t, r), steps)| {
        let mut label = "";
        for [t, r, _] in gen::visit([*t, *r, 0.0], steps) {
            let r = r.max(1.0);
            one_side("lighter", t, r, Contrast::lighter(t, r), Contrast::lighter_unsafe(t, r), ref_lighter(t, r), 100.0)?;
            label = one_side("darker", t, r, Contrast::darker(t, r), Contrast::darker_unsafe(t, r), ref_darker(t, r), 0.0)?;
        }
        Ok(label)
    });
    ctx.search("darker", ctx.n(1_000_000, 15_000_000), req, |(t, r)| {
        one_side("darker", *t, *r, Contrast::darker(*t, *r), Contrast::darker_unsafe(*t, *r), ref_darker(*t, *r), 0.0)
    });
}

// ------------------------------------------------------------------ C13
pub const C13: Prop = Prop {
    id: "C13",
    rule: "non-trivial: the requested ratio is above 1; near ties between the two candidates are skipped",
    assumptions: &["background tones in [0, 100], ratios 1 to 21"],
    run: c13,
};
/// The foreground rule, with comparisons decided at `eps` apart; None when a
/// comparison is too close to call.
pub fn ref_foreground(bg: f64, r: f64) -> Option<f64> {
    let l = match ref_lighter(bg, r) {
        Err(()) => return None,
        Ok(x) => x.unwrap_or(100.0),
    };
    let d = match ref_darker(bg, r) {
        Err(()) => return None,
        Ok(x) => x.unwrap_or(0.0),
    };
    let (cl, cd) = (contrast(l, bg), contrast(d, bg));
    let tie = |a: f64, b: f64| (a - b).abs() < 1e-7;
    // round half away from zero, tones are >= 0
    let light = (bg + 0.5).floor() < 60.0;
    if light {
        if tie(cl, r) {
            return None;
        }
        if cl >= r {
            return Some(l);
        }
        if tie(cl, cd) || tie((cl - cd).abs(), 0.1) || tie(cd, r) {
            return None;
        }
        if cl >= cd || ((cl - cd).abs() < 0.1 && cd < r) {
            Some(l)
        } else {
            Some(d)
        }
    } else {
        if tie(cd, r) {
            return None;
        }
        if cd >= r {
            return Some(d);
        }
        if tie(cl, cd) {
            return None;
        }
        if cd >= cl {
            Some(d)
        } else {
            Some(l)
        }
    }
}
/// The same rules with ties decided by `e`, for nested resolution.
pub fn ref_lighter_eps(t: f64, r: f64, e: f64) -> Option<f64> {
    if !(0.0..=100.0).contains(&t) {
        return None;
    }
    let l = refm::l_of_y(r * (refm::y_of_l(t) + 5.0) - 5.0) + 0.4;
    if l > 100.0 + e {
        None
    } else {
        Some(l)
    }
}
pub fn ref_darker_eps(t: f64, r: f64, e: f64) -> Option<f64> {
    if !(0.0..=100.0).contains(&t) {
        return None;
    }
    let l = refm::l_of_y((refm::y_of_l(t) + 5.0) / r - 5.0) - 0.4;
    if l < e {
        None
    } else {
        Some(l)
    }
}
pub fn ref_foreground_eps(bg: f64, r: f64, e: f64) -> f64 {
    let l = ref_lighter_eps(bg, r, e).unwrap_or(100.0);
    let d = ref_darker_eps(bg, r, e).unwrap_or(0.0);
    let (cl, cd) = (contrast(l, bg), contrast(d, bg));
    let ge = |a: f64, b: f64| a >= b + e;
    // Backgrounds that were given, not computed, are rounded exactly.
    let exact = (bg * 1024.0).fract() == 0.0;
    if (bg + 0.5 + if exact { 0.0 } else { e }).floor() < 60.0 {
        let negligible = (cl - cd).abs() + e < 0.1 && !ge(cl, r) && !ge(cd, r);
        if ge(cl, r) || ge(cl, cd) || negligible {
            l
        } else {
            d
        }
    } else if ge(cd, r) || ge(cd, cl) {
        d
    } else {
        l
    }
}

fn c13(ctx: &Ctx) {
    ctx.search("foreground", ctx.n(1_500_000, 20_000_000), || {
        prop_oneof![
            6 => (gen::tone(), gen::ratio()),
            2 => (gen::tone(), gen::tone()).prop_map(|(a, b)| (a, contrast(a, b))),
            1 => (30.0..65.0f64, 4.0..10.0f64),
        ]
    }, |(bg, r)| {
        let f = DynamicColor::foreground_tone(*bg, *r);
        ensure!((0.0..=100.0).contains(&f), "foreground_tone({bg}, {r}) = {f}");
        let got = contrast(f, *bg);
        let (best_l, best_d) = (contrast(100.0, *bg), contrast(0.0, *bg));
        // Whatever the side: the ratio is met, or the end of the scale is used,
        // and then no other tone would be better by more than 0.1 (plus the
        // 0.4-tone safety margin).
        if got < r - 1e-9 {
            ensure!(f == 0.0 || f == 100.0, "foreground_tone({bg}, {r}) = {f} has contrast {got} and is not at an end");
            let reach = best_l.max(best_d);
            ensure!(got >= reach - 0.1 - 1e-9, "foreground_tone({bg}, {r}) = {f} has contrast {got}, but {reach} is possible");
        }
        let Some(want) = ref_foreground(*bg, *r) else { return Ok("") };
        ensure!(close(f, want, 1e-9, 1e-6), "foreground_tone({bg}, {r}) = {f}, want {want}");
        Ok(if got >= *r - 1e-9 { "met" } else { "best-effort" })
    });
    ctx.search("helpers", ctx.n(500_000, 5_000_000), || any_tone(), |t| {
        if ((t - t.floor()) - 0.5).abs() < 1e-9 && *t < 0.0 {
            return Ok("");
        }
        let rounded = (t + 0.5).floor();
        let (prefers, allows) = (rounded < 60.0, rounded <= 49.0);
        ensure!(DynamicColor::tone_prefers_light_foreground(*t) == prefers, "tone_prefers_light_foreground({t})");
        ensure!(DynamicColor::tone_allows_light_foreground(*t) == allows, "tone_allows_light_foreground({t})");
        let e = DynamicColor::enable_light_foreground(*t);
        let want = if prefers && !allows { 49.0 } else { *t };
        ensure!(e == want, "enable_light_foreground({t}) = {e}, want {want}");
        ensure!(!DynamicColor::tone_prefers_light_foreground(e) || DynamicColor::tone_allows_light_foreground(e), "enable_light_foreground({t}) = {e} still prefers what it does not allow");
        Ok(if prefers != allows { "awkward" } else { "plain" })
    });
    // White text at 4.5:1 is possible exactly where a light foreground is allowed.
    ctx.search("white-text", ctx.n(200_000, 2_000_000), || gen::tone(), |t| {
        if DynamicColor::tone_allows_light_foreground(*t) {
            ensure!(contrast(100.0, *t) >= 4.4, "tone {t} allows a light foreground, but white has contrast {}", contrast(100.0, *t));
        } else {
            ensure!(contrast(100.0, *t) < 4.6, "tone {t} does not allow a light foreground, but white has contrast {}", contrast(100.0, *t));
        }
        Ok("white-text")
    });
}

// ------------------------------------------------------------------ C14
pub const C14: Prop = Prop {
    id: "C14",
    rule: "non-trivial: the four values are not all equal",
    assumptions: &[],
    run: c14,
};
fn c14(ctx: &Ctx) {
    ctx.search("curve", ctx.n(1_000_000, 15_000_000), || {
        let v = || prop_oneof![3 => gen::real(0.0, 21.0), 1 => gen::real(0.0, 100.0)];
        (v(), v(), v(), v(), prop_oneof![4 => gen::level(), 1 => gen::real(-5.0, 5.0)], 0.0..1.0f64, any::<bool>())
    }, |(a, b, c, d, x, dx, sorted)| {
        let mut v = [*a, *b, *c, *d];
        if *sorted {
            v.sort_by(|p, q| p.partial_cmp(q).unwrap());
        }
        let k = ContrastCurve::new(v[0], v[1], v[2], v[3]);
        let f = |x: f64| {
            let at = [-1.0, 0.0, 0.5, 1.0];
            if x <= -1.0 {
                return v[0];
            }
            if x >= 1.0 {
                return v[3];
            }
            let i = (0..3).find(|i| x <= at[i + 1]).unwrap();
            let u = (x - at[i]) / (at[i + 1] - at[i]);
            v[i] + (v[i + 1] - v[i]) * u
        };
        let got = k.get(*x);
        ensure!(close(got, f(*x), 1e-9, 1e-9), "curve {v:?} at {x} is {got}, want {}", f(*x));
        for (i, l) in [-1.0, 0.0, 0.5, 1.0].iter().enumerate() {
            ensure!(close(k.get(*l), v[i], 1e-12, 1e-12), "curve {v:?} at {l} is {}", k.get(*l));
        }
        let (lo, hi) = (v.iter().cloned().fold(f64::MAX, f64::min), v.iter().cloned().fold(f64::MIN, f64::max));
        ensure!(got >= lo - 1e-9 && got <= hi + 1e-9, "curve {v:?} at {x} is {got}, outside of its values");
        if *sorted {
            ensure!(k.get(x + dx) >= got - 1e-9, "increasing curve {v:?} falls between {x} and {}", x + dx);
        }
        let z = k.clone();
        ensure!(z.get(*x) == got, "a clone of the curve differs");
        Ok(if v[0] == v[1] && v[1] == v[2] && v[2] == v[3] { "" } else { "curve" })
    });
}
