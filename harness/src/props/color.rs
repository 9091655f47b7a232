//! C01-C03 HCT, C07-C10 conversions, math and text.
use super::Prop;
use crate::engine::{Ctx, Outcome};
use crate::gen;
use crate::refm::{self, close, dh};
use material_color_utilities_rs::{
    hct::{hct::Hct, src::hct_solver::HctSolver},
    utils::{color_utils::ColorUtils as CU, math_utils::MathUtils as MU, string_utils::StringUtils as SU},
};
use proptest::prelude::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Same coordinates, up to the noise of a reordered computation.
fn same(a: &Hct, b: &Hct) -> bool {
    dh(a.get_hue(), b.get_hue()) <= 1e-6
        && close(a.get_chroma(), b.get_chroma(), 1e-9, 1e-9)
        && close(a.get_tone(), b.get_tone(), 1e-9, 1e-9)
}

// ------------------------------------------------------------------ C01
pub const C01: Prop = Prop {
    id: "C01",
    rule: "a color counts as non-trivial when it is not a gray (its channels are not all equal), so that hue and chroma carry information; every opaque color is enumerated",
    assumptions: &["colors are 32-bit ARGB values"],
    run: c01,
};
fn c01_one(argb: i64) -> Outcome {
    let h = Hct::from_int(argb);
    ensure!(h.to_int() == argb, "from_int({argb:#x}).to_int() = {:#x}", h.to_int());
    let (hue, chroma, tone) = (h.get_hue(), h.get_chroma(), h.get_tone());
    ensure!((0.0..360.0).contains(&hue), "hue of {argb:#x} is {hue}");
    ensure!(chroma >= 0.0 && chroma < 200.0, "chroma of {argb:#x} is {chroma}");
    ensure!((-1e-9..=100.0 + 1e-9).contains(&tone), "tone of {argb:#x} is {tone}");
    let back = Hct::from(hue, chroma, tone).to_int();
    ensure!(back == argb | 0xff000000, "{argb:#x} -> ({hue}, {chroma}, {tone}) -> {back:#x}");
    let [r, g, b] = refm::rgb(argb);
    Ok(if r == g && g == b { "" } else { "chromatic" })
}
fn c01(ctx: &Ctx) {
    ctx.sweep("all-opaque", 1 << 24, |i| c01_one(0xff000000 | *i as i64));
    ctx.search("any-alpha", ctx.n(200_000, 4_000_000), gen::argb_alpha, |a| {
        c01_one(*a)?;
        let (x, y) = (Hct::from_int(*a), Hct::from_int(*a | 0xff000000));
        ensure!(same(&x, &y), "alpha changes the coordinates of {a:#x}");
        ensure!(same(&Hct::new(*a), &x) && Hct::new(*a).to_int() == *a, "new and from_int differ for {a:#x}");
        Ok(if a >> 24 == 255 { "" } else { "translucent" })
    });
}

// ------------------------------------------------------------------ C02
pub const C02: Prop = Prop {
    id: "C02",
    rule: "non-trivial: the request has chroma above 0.0001 and a tone strictly between 0 and 100; classes tell requests inside the sRGB gamut from those whose chroma has to be reduced",
    assumptions: &[
        "the reference bisects an independent CAM16 implementation in double precision",
        "for tones above 98.5, where sRGB may have no color of the hue with at most the requested chroma, the channels are claimed only if it has one (of chroma 0.5 or more)",
        "a request at most 0.012% of light outside of sRGB may count as inside; within 0.3 degrees of hue 113 and 0.1 of tone 98.8, where the surface follows the hue, only hue and tone are claimed of requests outside of it",
    ],
    run: c02,
};
/// The solver's answer against the ideal answer for one request.
pub fn c02_one(h: f64, c: f64, t: f64, vc: &refm::Vc) -> Outcome {
    let argb = Hct::from(h, c, t).to_int();
    ensure!((0xff000000..=0xffffffff).contains(&argb), "({h}, {c}, {t}) gives {argb:#x}, not an opaque color");
    ensure!(argb == HctSolver::solve_to_int(h, c, t), "solver and Hct::from differ for ({h}, {c}, {t})");
    let got = refm::rgb(argb);
    if t <= 0.0 {
        ensure!(argb == 0xff000000, "tone {t} gives {argb:#x}");
        return Ok("");
    }
    if t >= 100.0 {
        ensure!(argb == 0xffffffff, "tone {t} gives {argb:#x}");
        return Ok("");
    }
    let lt = refm::tone(argb);
    ensure!((lt - t).abs() <= 0.5, "({h}, {c}, {t}) gives {argb:#x}, whose tone is {lt}");
    if c < 0.0001 {
        ensure!(got[0] == got[1] && got[1] == got[2], "chroma {c} gives {argb:#x}, not a gray");
        return Ok("");
    }
    let (lin, cc, inside) = refm::ideal_hct(h, c, t, vc);
    if cc < 0.5 && t > 98.5 && !inside {
        // Close to white, sRGB may have no color of that hue at all.
        return Ok("");
    }
    let tol = if t < 3.0 { 1.0 } else { 0.7 };
    let off = |lin: [f64; 3]| (0..3).map(|i| (got[i] as f64 - refm::delin(lin[i].clamp(0.0, 100.0))).abs()).fold(0.0, f64::max);
    if !inside && off(lin) > tol {
        // The surface of sRGB is known to a hundredth of a percent of light
        // only; along the edge from yellow to white it follows the hue, so
        // that this can be worth some chroma.
        let full = refm::linrgb_of_hcy(h, c, refm::y_of_l(t), vc);
        if refm::in_gamut(full, 0.012) && off(full.unwrap()) <= tol {
            return Ok("on-surface");
        }
        // There, sRGB holds two stretches of chroma; either end may be found.
        let x = refm::cam(argb, vc);
        if dh(h, 113.0) < 0.3 && (t - 98.8).abs() < 0.1 && dh(x.h, h) < 0.3 {
            return Ok("");
        }
    }
    for i in 0..3 {
        let want = refm::delin(lin[i].clamp(0.0, 100.0));
        ensure!(
            (got[i] as f64 - want).abs() <= tol,
            "({h}, {c}, {t}) gives {argb:#x}, but the color of that hue and tone and chroma {cc} has channel {i} = {want:.3}"
        );
    }
    Ok(if t > 98.0 {
        "near-white"
    } else if inside {
        "in-gamut"
    } else {
        "reduced-chroma"
    })
}
fn c02(ctx: &Ctx) {
    let vc = refm::Vc::default();
    ctx.search("request", ctx.n(56_000, 2_000_000), || (gen::hue(), gen::chroma(), gen::tone()), |(h, c, t)| {
        c02_one(*h, *c, *t, &vc)
    });
    // Requests near what a real color has: around the gamut surface.
    ctx.search("near-surface", ctx.n(24_000, 1_000_000), || (gen::argb(), -3.0..3.0f64, -6.0..6.0f64, -3.0..3.0f64), |(a, dhue, dc, dt)| {
        let x = refm::cam(*a, &vc);
        c02_one(refm::deg(x.h + dhue), (x.c + dc).max(0.0), (refm::tone(*a) + dt).clamp(0.0, 100.0), &vc)
    });
    ctx.search("near-white", ctx.n(12_000, 400_000), || (gen::hue(), prop_oneof![0.001..12.0f64, gen::chroma()], 98.0..99.9999f64), |(h, c, t)| {
        c02_one(*h, *c, *t, &vc)
    });
    // Neighbouring requests in a row: no answer may stand in for the next one.
    ctx.search("neighbours", ctx.n(6_000, 200_000), || (gen::hue(), gen::chroma(), gen::tone(), gen::near_steps(4)), |(h, c, t, steps)| {
        let mut label = "";
        for [h, c, t] in gen::visit([*h, *c, *t], steps) {
            label = c02_one(refm::deg(h), c.max(0.0), t.clamp(0.0, 100.0), &vc)?;
        }
        Ok(label)
    });
    // Hue is a direction: whole turns do not matter.
    ctx.search(
        "periodic",
        ctx.n(400_000, 6_000_000),
        || (0i64..360 * 64, prop_oneof![-3i64..=3, -40i64..=40, -100_000i64..=100_000], gen::chroma(), gen::tone()),
        |(h64, k, c, t)| {
            let h = *h64 as f64 / 64.0;
            let a = Hct::from(h, *c, *t).to_int();
            let b = Hct::from(h + 360.0 * *k as f64, *c, *t).to_int();
            ensure!(a == b, "hue {h} gives {a:#x}, {k} turns further {b:#x}");
            let cam = HctSolver::solve_to_cam(h, *c, *t);
            let x = Hct::from_int(a);
            ensure!(dh(cam.hue, x.get_hue()) <= 1e-6 && close(cam.chroma, x.get_chroma(), 1e-9, 1e-9), "solve_to_cam differs from the solved color at ({h}, {c}, {t})");
            Ok(if *k == 0 { "" } else { "turned" })
        },
    );
    // Tones and chromas at and beyond their range.
    ctx.search("beyond", ctx.n(100_000, 1_000_000), || (gen::hue(), -50.0..200.0f64, gen::real(-50.0, 150.0)), |(h, c, t)| {
        let a = Hct::from(*h, *c, *t).to_int();
        let g = refm::rgb(a);
        ensure!((0xff000000..=0xffffffff).contains(&a), "({h}, {c}, {t}) gives {a:#x}");
        if *t <= 0.0 {
            ensure!(a == 0xff000000, "tone {t} gives {a:#x}");
        } else if *t >= 100.0 {
            ensure!(a == 0xffffffff, "tone {t} gives {a:#x}");
        } else {
            ensure!((refm::tone(a) - t).abs() <= 0.5, "({h}, {c}, {t}) has tone {}", refm::tone(a));
            if *c <= 0.0 {
                ensure!(g[0] == g[1] && g[1] == g[2], "chroma {c} gives {a:#x}");
                let want = refm::delin(refm::y_of_l(*t));
                ensure!((g[0] as f64 - want).abs() <= 0.5 + 1e-6, "gray of tone {t} is {a:#x}, want level {want}");
            }
        }
        Ok(if *t <= 0.0 || *t >= 100.0 || *c <= 0.0 { "limit" } else { "" })
    });
}

// ------------------------------------------------------------------ C03
pub const C03: Prop = Prop {
    id: "C03",
    rule: "non-trivial: the history contains at least one setter call that changes the color",
    assumptions: &["setter values: any hue in [-720, 1080), chroma in [0, 400], tone in [-20, 120]"],
    run: c03,
};
type Ops = Vec<(u8, f64)>;
fn setter() -> gen::S<(u8, f64)> {
    prop_oneof![
        3 => (gen::hue(), -2i64..=2).prop_map(|(h, k)| (0u8, h + 360.0 * k as f64)),
        3 => gen::chroma().prop_map(|c| (1u8, c)),
        3 => gen::tone().prop_map(|t| (2u8, t)),
        1 => gen::real(-20.0, 120.0).prop_map(|t| (2u8, t)),
        1 => (3u8..6, Just(0.0)).boxed(),
    ]
    .boxed()
}
fn check_setters(start: i64, ops: &[(u8, f64)]) -> Outcome {
        let mut x = Hct::from_int(start);
        let mut changed = false;
        for (k, (op, v)) in ops.iter().enumerate() {
            let before = x.clone();
            let (h, c, t) = (before.get_hue(), before.get_chroma(), before.get_tone());
            let want = match op {
                0 => Hct::from(*v, c, t),
                1 => Hct::from(h, *v, t),
                2 => Hct::from(h, c, *v),
                _ => Hct::from(h, c, t),
            };
            match op {
                0 => x.set_hue(*v),
                1 => x.set_chroma(*v),
                2 => x.set_tone(*v),
                3 => x.set_hue(h),
                4 => x.set_chroma(c),
                _ => x.set_tone(t),
            }
            ensure!(x.to_int() == want.to_int(), "step {k}: setter {op} to {v} on {:#x} gives {:#x}, want {:#x}", before.to_int(), x.to_int(), want.to_int());
            if *op >= 3 {
                ensure!(x.to_int() == before.to_int() | 0xff000000, "step {k}: setting its own coordinate moves {:#x} to {:#x}", before.to_int(), x.to_int());
            }
            let fresh = Hct::from_int(x.to_int());
            ensure!(same(&x, &fresh), "step {k}: coordinates of {:#x} are stale: {:?} instead of {:?}", x.to_int(), x, fresh);
            if *op == 2 {
                let tt = v.clamp(0.0, 100.0);
                ensure!((x.get_tone() - tt).abs() <= 0.5, "step {k}: set_tone({v}) gives tone {}", x.get_tone());
            }
            if *op == 0 && x.get_tone() < 95.0 && x.get_tone() > 10.0 && x.get_chroma() > 15.0 {
                ensure!(dh(x.get_hue(), *v) <= 6.0, "step {k}: set_hue({v}) gives hue {}", x.get_hue());
            }
            let c2 = x.clone();
            ensure!(same(&c2, &x) && c2.to_int() == x.to_int(), "a clone differs");
            ensure!((x == before) == (x.to_int() == before.to_int()), "step {k}: equality does not follow the color");
            ensure!((x == fresh) && hash_of(&x) == hash_of(&fresh), "step {k}: same color, but unequal or different hash");
            if x.to_int() != before.to_int() {
                changed = true;
            }
        }
        Ok(if changed { "changed" } else { "" })
}
fn c03(ctx: &Ctx) {
    ctx.search("setters", ctx.n(200_000, 4_000_000), || (gen::argb_alpha(), prop::collection::vec(setter(), 1..10)), |(start, ops): &(i64, Ops)| check_setters(*start, ops));
    ctx.search("long", ctx.n(150, 3_000), || (gen::argb_alpha(), any::<u64>(), gen::steps(1_200)), |(start, seed, n)| {
        let mut r = gen::Mix(*seed);
        let ops: Ops = (0..*n)
            .map(|_| match r.below(7) {
                0 | 1 => (0, r.unit() * 360.0 + 360.0 * (r.below(5) as f64 - 2.0)),
                2 | 3 => (1, r.unit() * 120.0),
                4 | 5 => (2, r.unit() * 110.0 - 5.0),
                _ => (3 + r.below(3) as u8, 0.0),
            })
            .collect();
        check_setters(*start, &ops)
    });
    ctx.search("equality", ctx.n(200_000, 2_000_000), || (gen::argb_alpha(), gen::argb_alpha(), any::<bool>()), |(a, b, same)| {
        let b = if *same { *a } else { *b };
        let (x, y) = (Hct::from_int(*a), Hct::from_int(b));
        ensure!((x == y) == (*a == b), "{a:#x} == {b:#x} gives {}", x == y);
        ensure!(*a != b || hash_of(&x) == hash_of(&y), "equal colors, different hashes");
        Ok(if *same { "" } else { "pair" })
    });
}

// ------------------------------------------------------------------ C07
pub const C07: Prop = Prop {
    id: "C07",
    rule: "non-trivial: packing cases with at least two different components, and transfer-function cases whose rounding is not a near tie",
    assumptions: &["roundings within 1e-6 of a half are not compared with the reference"],
    run: c07,
};
fn round_ok(got: i64, want: f64) -> bool {
    let w = want.clamp(0.0, 255.0);
    if ((w - w.floor()) - 0.5).abs() < 1e-6 {
        return (got as f64 - w).abs() <= 0.5 + 1e-5;
    }
    got == (w + 0.5).floor() as i64
}
fn c07(ctx: &Ctx) {
    ctx.sweep("channel", 256, |c| {
        let c = *c as i64;
        let l = CU::linearized(c);
        ensure!(close(l, refm::lin(c as f64), 1e-9, 1e-12), "linearized({c}) = {l}");
        ensure!(CU::delinearized(l) == c, "delinearized(linearized({c})) = {}", CU::delinearized(l));
        if c > 0 {
            ensure!(CU::linearized(c - 1) < l, "linearized is not increasing at {c}");
        }
        Ok("channel")
    });
    ctx.sweep("pack", 1 << 24, |i| {
        let i = *i as i64;
        let (r, g, b) = (i >> 16, i >> 8 & 255, i & 255);
        let a = CU::argb_from_rgb(r, g, b);
        ensure!(a == refm::pack(r, g, b), "argb_from_rgb({r}, {g}, {b}) = {a:#x}");
        ensure!(CU::red_from_argb(a) == r && CU::green_from_argb(a) == g && CU::blue_from_argb(a) == b, "components of {a:#x}");
        ensure!(CU::alpha_from_argb(a) == 255 && CU::is_opaque(a), "alpha of {a:#x}");
        Ok(if r == g && g == b { "" } else { "color" })
    });
    ctx.search("alpha", ctx.n(500_000, 4_000_000), gen::argb_alpha, |a| {
        let [r, g, b] = refm::rgb(*a);
        let al = a >> 24;
        ensure!(CU::alpha_from_argb(*a) == al, "alpha of {a:#x} is {}", CU::alpha_from_argb(*a));
        ensure!(CU::is_opaque(*a) == (al == 255), "is_opaque({a:#x})");
        ensure!((CU::red_from_argb(*a), CU::green_from_argb(*a), CU::blue_from_argb(*a)) == (r, g, b), "components of {a:#x}");
        Ok(if al == 255 { "" } else { "translucent" })
    });
    ctx.search("wide-components", ctx.n(200_000, 2_000_000), || (-100_000i64..100_000, -100_000i64..100_000, -100_000i64..100_000), |(r, g, b)| {
        let a = CU::argb_from_rgb(*r, *g, *b);
        let want = refm::pack(r.rem_euclid(256), g.rem_euclid(256), b.rem_euclid(256));
        ensure!(a == want, "argb_from_rgb({r}, {g}, {b}) = {a:#x}, want {want:#x}");
        Ok("wrapped")
    });
    ctx.search("transfer", ctx.n(1_000_000, 10_000_000), || gen::real(-50.0, 150.0), |l| {
        let d = CU::delinearized(*l);
        let want = if *l <= 0.0 { 0.0 } else { refm::delin(*l) };
        ensure!(round_ok(d, want), "delinearized({l}) = {d}, want {want}");
        Ok(if *l > 0.0 && *l < 100.0 { "inside" } else { "clamped" })
    });
    ctx.search("transfer-fine", ctx.n(500_000, 5_000_000), || (0i64..255, -0.6..0.6f64), |(c, d)| {
        // linear values chosen to land between neighbouring channel values
        let x = (*c as f64 + 0.5 + d).max(0.0);
        let l = refm::lin(x);
        let got = CU::delinearized(l);
        ensure!(round_ok(got, refm::delin(l)), "delinearized({l}) = {got}, want {x}");
        let m = CU::delinearized(l + 1e-3);
        ensure!(m >= got, "delinearized is not monotone at {l}");
        Ok("between")
    });
    ctx.search("linrgb", ctx.n(500_000, 4_000_000), || (gen::real(-20.0, 120.0), gen::real(-20.0, 120.0), gen::real(-20.0, 120.0)), |(r, g, b)| {
        let a = CU::argb_from_linrgb(vec![*r, *g, *b]);
        let got = refm::rgb(a);
        for (i, l) in [*r, *g, *b].iter().enumerate() {
            ensure!(round_ok(got[i], refm::delin(l.max(0.0))), "argb_from_linrgb({r}, {g}, {b}) = {a:#x}");
        }
        ensure!(a >> 24 == 255, "argb_from_linrgb({r}, {g}, {b}) = {a:#x}");
        Ok("linrgb")
    });
}

// ------------------------------------------------------------------ C08
pub const C08: Prop = Prop {
    id: "C08",
    rule: "non-trivial: colors that are not gray; requests in XYZ or Lab that no channel rounds at a near tie",
    assumptions: &["the reference uses the same published matrix and D65 white point, in double precision"],
    run: c08,
};
fn v3(v: &[f64]) -> Result<[f64; 3], String> {
    ensure!(v.len() == 3, "{} components", v.len());
    Ok([v[0], v[1], v[2]])
}
fn chan_ok(argb: i64, want: [f64; 3], slack: f64) -> bool {
    let g = refm::rgb(argb);
    (0..3).all(|i| (g[i] as f64 - want[i].clamp(0.0, 255.0)).abs() <= 0.5 + slack)
}
fn c08(ctx: &Ctx) {
    ctx.sweep("colors", 1 << 24, |i| {
        let a = 0xff000000 | *i as i64;
        let x = v3(&CU::xyz_from_argb(a))?;
        let l = v3(&CU::lab_from_argb(a))?;
        let (rx, rl) = (refm::xyz(a), refm::lab(a));
        for k in 0..3 {
            ensure!(close(x[k], rx[k], 1e-9, 1e-9), "xyz_from_argb({a:#x}) = {x:?}, want {rx:?}");
            ensure!(close(l[k], rl[k], 1e-9, 1e-7), "lab_from_argb({a:#x}) = {l:?}, want {rl:?}");
        }
        let t = CU::lstar_from_argb(a);
        ensure!(close(t, rl[0], 1e-9, 1e-9), "lstar_from_argb({a:#x}) = {t}, want {}", rl[0]);
        ensure!(CU::argb_from_xyz(x[0], x[1], x[2]) == a, "{a:#x} -> XYZ {x:?} -> {:#x}", CU::argb_from_xyz(x[0], x[1], x[2]));
        ensure!(CU::argb_from_lab(l[0], l[1], l[2]) == a, "{a:#x} -> Lab {l:?} -> {:#x}", CU::argb_from_lab(l[0], l[1], l[2]));
        let [r, g, b] = refm::rgb(a);
        if r == g && g == b {
            ensure!(CU::argb_from_lstar(t) == a, "{a:#x} -> L* {t} -> {:#x}", CU::argb_from_lstar(t));
            return Ok("");
        }
        Ok("color")
    });
    ctx.search("alpha", ctx.n(100_000, 1_000_000), gen::argb_alpha, |a| {
        let o = *a | 0xff000000;
        ensure!(CU::xyz_from_argb(*a) == CU::xyz_from_argb(o) && CU::lab_from_argb(*a) == CU::lab_from_argb(o) && CU::lstar_from_argb(*a) == CU::lstar_from_argb(o), "alpha matters for {a:#x}");
        Ok(if *a == o { "" } else { "translucent" })
    });
    ctx.search("xyz", ctx.n(500_000, 5_000_000), || (gen::real(-10.0, 110.0), gen::real(-10.0, 110.0), gen::real(-10.0, 120.0)), |(x, y, z)| {
        let a = CU::argb_from_xyz(*x, *y, *z);
        let want = refm::mul(refm::xyz_to_srgb(), [*x, *y, *z]).map(|c| refm::delin(c.max(0.0)));
        ensure!(a >> 24 == 255 && chan_ok(a, want, 1e-5), "argb_from_xyz({x}, {y}, {z}) = {a:#x}, want channels {want:?}");
        Ok("xyz")
    });
    ctx.search("lab", ctx.n(500_000, 5_000_000), || (gen::real(-5.0, 105.0), gen::real(-130.0, 130.0), gen::real(-130.0, 130.0)), |(l, p, q)| {
        let a = CU::argb_from_lab(*l, *p, *q);
        let want = {
            let fy = (l + 16.0) / 116.0;
            let f = [fy + p / 500.0, fy, fy - q / 200.0];
            let x = [0, 1, 2].map(|i| refm::lab_inv(f[i]) * refm::D65[i]);
            refm::mul(refm::xyz_to_srgb(), x).map(|c| refm::delin(c.max(0.0)))
        };
        ensure!(a >> 24 == 255 && chan_ok(a, want, 1e-5), "argb_from_lab({l}, {p}, {q}) = {a:#x}, want channels {want:?}");
        Ok("lab")
    });
    ctx.search("lstar", ctx.n(1_000_000, 10_000_000), || prop_oneof![gen::tone(), gen::real(-10.0, 110.0), (0.0..9.0f64)], |l| {
        let y = CU::y_from_lstar(*l);
        ensure!(close(y, refm::y_of_l(*l), 1e-9, 1e-9), "y_from_lstar({l}) = {y}, want {}", refm::y_of_l(*l));
        let back = CU::lstar_from_y(y);
        ensure!(close(back, *l, 1e-9, 1e-8), "lstar_from_y(y_from_lstar({l})) = {back}");
        ensure!(CU::y_from_lstar(*l + 1e-3) > y, "y_from_lstar is not increasing at {l}");
        let yy = l.max(0.0);
        let ly = CU::lstar_from_y(yy);
        ensure!(close(ly, refm::l_of_y(yy), 1e-9, 1e-9), "lstar_from_y({yy}) = {ly}, want {}", refm::l_of_y(yy));
        ensure!(close(CU::y_from_lstar(ly), yy, 1e-9, 1e-8), "y_from_lstar(lstar_from_y({yy})) = {}", CU::y_from_lstar(ly));
        let a = CU::argb_from_lstar(*l);
        let g = refm::rgb(a);
        let want = refm::delin(refm::y_of_l(*l).max(0.0));
        ensure!(a >> 24 == 255 && g[0] == g[1] && g[1] == g[2] && chan_ok(a, [want; 3], 1e-6), "argb_from_lstar({l}) = {a:#x}, want gray {want}");
        Ok(if *l > 0.0 && *l < 100.0 { "inside" } else { "outside" })
    });
    ctx.pinned("white", vec![0u64], |_| {
        let w = v3(&CU::white_point_d65())?;
        ensure!(w == refm::D65, "white point {w:?}");
        Ok("white")
    });
}

// ------------------------------------------------------------------ C09
pub const C09: Prop = Prop {
    id: "C09",
    rule: "non-trivial: angles that need reducing, directions between different hues, clamps that act",
    assumptions: &["differences of degrees are claimed for hues in [0, 360), the range the documentation gives"],
    run: c09,
};
fn c09(ctx: &Ctx) {
    let angle = || {
        prop_oneof![
            3 => (gen::hue(), -5i64..=5).prop_map(|(h, k)| h + 360.0 * k as f64),
            1 => -1e6..1e6f64,
            1 => (-1000i64..1000).prop_map(|k| k as f64 * 90.0),
            1 => (prop::sample::select(vec![1e-300, 1e-20, 1e-17, 1e-14, 1e-9]), any::<bool>(), -3i64..3).prop_map(|(e, s, k)| (if s { e } else { -e }) + 360.0 * k as f64),
        ]
    };
    ctx.search("sanitize", ctx.n(1_000_000, 10_000_000), angle, |d| {
        let r = MU::sanitize_degrees_double(*d);
        ensure!((0.0..360.0).contains(&r), "sanitize_degrees_double({d}) = {r}");
        let q = (d - r) / 360.0;
        ensure!((q - q.round()).abs() * 360.0 <= 1e-9 * (1.0 + d.abs()), "sanitize_degrees_double({d}) = {r}, another direction");
        ensure!(MU::sanitize_degrees_double(r) == r, "not idempotent at {d}");
        Ok(if *d >= 0.0 && *d < 360.0 { "" } else { "reduced" })
    });
    ctx.search("sanitize-int", ctx.n(300_000, 3_000_000), || prop_oneof![-2000i64..2000, any::<i64>()], |d| {
        let r = MU::sanitize_degrees_int(*d);
        ensure!(r == d.rem_euclid(360), "sanitize_degrees_int({d}) = {r}");
        Ok(if (0..360).contains(d) { "" } else { "reduced" })
    });
    ctx.search("directions", ctx.n(1_000_000, 10_000_000), || {
        prop_oneof![
            3 => (gen::hue(), gen::hue()),
            1 => (0i64..1440, 0i64..1440).prop_map(|(a, b)| (a as f64 / 4.0, b as f64 / 4.0)),
            1 => (gen::hue(), -1.0..1.0f64).prop_map(|(a, d)| (a, refm::deg(a + 180.0 + d))),
        ]
    }, |(a, b)| {
        let d = MU::difference_degrees(*a, *b);
        ensure!(close(d, dh(*a, *b), 1e-12, 1e-9), "difference_degrees({a}, {b}) = {d}");
        ensure!(d == MU::difference_degrees(*b, *a), "difference_degrees is not symmetric at {a}, {b}");
        ensure!((0.0..=180.0).contains(&d), "difference_degrees({a}, {b}) = {d}");
        let r = MU::rotation_direction(*a, *b);
        ensure!(r == 1.0 || r == -1.0, "rotation_direction({a}, {b}) = {r}");
        let arrive = refm::dh(a + r * d, *b);
        ensure!(arrive <= 1e-8, "turning {a} by {d} in direction {r} does not arrive at {b}");
        Ok(if a == b { "" } else { "turn" })
    });
    ctx.search("opposite", ctx.n(100_000, 1_000_000), || 0i64..1440, |a| {
        let a = *a as f64 / 4.0;
        let b = refm::deg(a + 180.0);
        ensure!(MU::rotation_direction(a, b) == 1.0 && MU::rotation_direction(b, a) == 1.0, "opposite hues {a}, {b} do not turn increasingly");
        ensure!(MU::rotation_direction(a, a) == 1.0, "equal hues");
        Ok("opposite")
    });
    ctx.search("wide-directions", ctx.n(300_000, 3_000_000), || (-4000i64..4000, -4000i64..4000), |(a, b)| {
        let (a, b) = (*a as f64 / 4.0, *b as f64 / 4.0);
        let inc = refm::deg(b - a);
        let want = if inc <= 180.0 { 1.0 } else { -1.0 };
        ensure!(MU::rotation_direction(a, b) == want, "rotation_direction({a}, {b})");
        Ok("turn")
    });
    ctx.search("scalars", ctx.n(500_000, 5_000_000), || (gen::real(-200.0, 200.0), gen::real(-200.0, 200.0), gen::real(-200.0, 200.0), prop_oneof![gen::real(0.0, 1.0), -2.0..3.0f64]), |(x, y, z, t)| {
        let s = MU::signum(*x);
        ensure!(s == if *x > 0.0 { 1 } else if *x < 0.0 { -1 } else { 0 }, "signum({x}) = {s}");
        let l = MU::lerp(*x, *y, *t);
        let want = x + (y - x) * t;
        ensure!(close(l, want, 1e-12, 1e-9), "lerp({x}, {y}, {t}) = {l}, want {want}");
        ensure!(close(MU::lerp(*x, *y, 0.0), *x, 1e-12, 1e-12) && close(MU::lerp(*x, *y, 1.0), *y, 1e-12, 1e-12), "lerp ends for {x}, {y}");
        let (lo, hi) = (x.min(*y), x.max(*y));
        let c = MU::clamp_double(lo, hi, *z);
        ensure!(c == z.max(lo).min(hi), "clamp_double({lo}, {hi}, {z}) = {c}");
        let (il, ih, iz) = (lo as i64, hi as i64, *z as i64);
        ensure!(MU::clamp_int(il, ih, iz) == iz.max(il).min(ih), "clamp_int({il}, {ih}, {iz})");
        Ok(if c == *z { "inside" } else { "clamped" })
    });
    ctx.search("matrix", ctx.n(200_000, 2_000_000), || prop::collection::vec(-100.0..100.0f64, 12..=12), |v: &Vec<f64>| {
        let row = vec![v[0], v[1], v[2]];
        let m: Vec<Vec<f64>> = (0..3).map(|i| v[3 + 3 * i..6 + 3 * i].to_vec()).collect();
        let got = v3(&MU::matrix_multiply(row.clone(), m.clone()))?;
        for i in 0..3 {
            let want: f64 = (0..3).map(|k| m[i][k] * row[k]).sum();
            ensure!(close(got[i], want, 1e-12, 1e-9), "matrix_multiply: component {i} is {}, want {want}", got[i]);
        }
        Ok("matrix")
    });
    ctx.pinned("signum", vec![0.0, -0.0, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 1e300, -1e300], |x: &f64| {
        let want = if *x > 0.0 { 1 } else if *x < 0.0 { -1 } else { 0 };
        ensure!(MU::signum(*x) == want, "signum({x})");
        Ok("signum")
    });
}

// ------------------------------------------------------------------ C10
pub const C10: Prop = Prop {
    id: "C10",
    rule: "non-trivial: strings with at least one hex digit, colors with a leading zero digit or letters",
    assumptions: &["strings whose digits start with a sign are not claimed"],
    run: c10,
};
fn c10(ctx: &Ctx) {
    ctx.sweep("hex", 1 << 24, |i| {
        let rgb = *i as i64;
        let a = 0xff000000 | rgb;
        let s = SU::hex_from_argb(a, None);
        let b = s.as_bytes();
        ensure!(b.len() == 7 && b[0] == b'#', "hex_from_argb({a:#x}) = {s:?}");
        for (k, ch) in b[1..].iter().enumerate() {
            let d = (rgb >> (20 - 4 * k)) & 15;
            ensure!(*ch == b"0123456789ABCDEF"[d as usize], "hex_from_argb({a:#x}) = {s:?}");
        }
        let back = SU::argb_from_hex(s);
        ensure!(back == Some(rgb), "hex form of {a:#x} parses as {back:?}");
        Ok("color")
    });
    ctx.search("forms", ctx.n(500_000, 4_000_000), || (gen::argb_alpha(), any::<bool>(), any::<bool>()), |(a, hash, lower)| {
        let full = SU::hex_from_argb(*a, Some(true));
        let bare = SU::hex_from_argb(*a, Some(false));
        ensure!(full == format!("#{bare}") && SU::hex_from_argb(*a, None) == full, "hash sign of {a:#x}: {full:?}, {bare:?}");
        ensure!(bare == format!("{:06X}", a & 0xffffff), "hex of {a:#x} is {bare:?}");
        let mut t = if *hash { full } else { bare };
        if *lower {
            t = t.to_lowercase();
        }
        ensure!(SU::argb_from_hex(t.clone()) == Some(a & 0xffffff), "{t:?} parses as {:?}", SU::argb_from_hex(t.clone()));
        let eight = format!("{}{:08x}", if *hash { "#" } else { "" }, a);
        ensure!(SU::argb_from_hex(eight.clone()) == Some(*a), "{eight:?} parses as {:?}", SU::argb_from_hex(eight.clone()));
        Ok("form")
    });
    ctx.search("text", ctx.n(400_000, 4_000_000), || {
        let digit = prop_oneof![8 => "[0-9a-fA-F]", 1 => "[g-zG-Z]", 1 => "[-+ .,_:#]", 1 => "[\\x00-\\x7f]", 1 => "[\u{80}-\u{2fff}]"];
        (any::<bool>(), prop::collection::vec(digit, 0..12)).prop_map(|(h, v)| format!("{}{}", if h { "#" } else { "" }, v.concat()))
    }, |s: &String| {
        let t = s.trim_start_matches('#');
        let got = SU::argb_from_hex(s.clone());
        let ok = !t.is_empty() && t.bytes().all(|c| c.is_ascii_hexdigit());
        if ok {
            let want = t.chars().fold(0i64, |n, c| n * 16 + c.to_digit(16).unwrap() as i64);
            ensure!(got == Some(want), "{s:?} parses as {got:?}, want {want}");
            Ok("number")
        } else {
            ensure!(got.is_none(), "{s:?} parses as {got:?}");
            Ok(if t.is_empty() { "" } else { "rejected" })
        }
    });
    ctx.search("hct-text", ctx.n(300_000, 3_000_000), gen::argb, |a| {
        let h = Hct::from_int(*a);
        let want = format!("H{:.0} C{:.0} T{:.0}", h.get_hue().round(), h.get_chroma().round(), h.get_tone().round());
        ensure!(h.to_string() == want, "{:?} for {want:?}", h.to_string());
        Ok("hct")
    });
}
