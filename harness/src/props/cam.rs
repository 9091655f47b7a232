//! C04-C06: the color appearance model and viewing conditions.
use super::Prop;
use crate::engine::{Ctx, Outcome};
use crate::gen::{self, vc_real, vc_ref};
use crate::refm::{self, close, dh};
use material_color_utilities_rs::{
    hct::{cam16::Cam16, hct::Hct, viewing_conditions::ViewingConditions},
    utils::color_utils::ColorUtils as CU,
};
use proptest::prelude::*;

const R: f64 = 1e-6;

/// Compares a CAM16 value with the reference. The hue of a (nearly) gray
/// color is noise and is only compared through the UCS components.
fn same_cam(got: &Cam16, want: &refm::Cam, what: &str) -> Result<(), String> {
    let pairs = [
        ("j", got.j, want.j),
        ("q", got.q, want.q),
        ("chroma", got.chroma, want.c),
        ("m", got.m, want.m),
        ("s", got.s, want.s),
        ("jstar", got.jstar, want.ucs[0]),
        ("astar", got.astar, want.ucs[1]),
        ("bstar", got.bstar, want.ucs[2]),
    ];
    for (n, g, w) in pairs {
        // s goes with the square root of chroma: noise near gray is larger.
        let abs = if n == "s" { 1e-3 } else { 1e-5 };
        ensure!(close(g, w, R, abs), "{what}: {n} is {g}, want {w}");
    }
    ensure!((0.0..=360.0).contains(&got.hue), "{what}: hue is {}", got.hue);
    if want.c > 1e-3 {
        ensure!(dh(got.hue, want.h) <= 1e-5 + 1e-6 / want.c, "{what}: hue is {}, want {}", got.hue, want.h);
    }
    Ok(())
}

fn gray(a: i64) -> bool {
    let [r, g, b] = refm::rgb(a);
    r == g && g == b
}

// ------------------------------------------------------------------ C04
pub const C04: Prop = Prop {
    id: "C04",
    rule: "non-trivial: colors that are not gray; viewing conditions other than the default ones are a class of their own",
    assumptions: &[
        "the reference is written from the CAM16 definition, in double precision",
        "surround in [0, 2], adapting luminance 0.01 to 10000, background L* in [0, 100], white points within 15% of D65",
    ],
    run: c04,
};
fn c04(ctx: &Ctx) {
    let vc = refm::Vc::default();
    ctx.sweep("hct-coordinates", 1 << 24, |i| {
        let a = 0xff000000 | *i as i64;
        let h = Hct::from_int(a);
        let w = refm::cam(a, &vc);
        ensure!(close(h.get_chroma(), w.c, R, 1e-5), "chroma of {a:#x} is {}, want {}", h.get_chroma(), w.c);
        ensure!(w.c < 1e-3 || dh(h.get_hue(), w.h) <= 1e-5 + 1e-6 / w.c, "hue of {a:#x} is {}, want {}", h.get_hue(), w.h);
        ensure!(close(h.get_tone(), refm::tone(a), R, 1e-6), "tone of {a:#x} is {}, want {}", h.get_tone(), refm::tone(a));
        Ok(if gray(a) { "" } else { "color" })
    });
    ctx.search("default", ctx.n(400_000, 8_000_000), gen::argb_alpha, |a| {
        let w = refm::cam(*a, &vc);
        same_cam(&Cam16::from_int(*a), &w, &format!("{a:#x}"))?;
        ensure!(Cam16::from_int(*a).hue < 360.0, "hue of {a:#x}");
        Ok(if gray(*a) { "" } else { "color" })
    });
    ctx.search("any-conditions", ctx.n(400_000, 8_000_000), || (gen::argb(), gen::vc_in()), |(a, v)| {
        let c = Cam16::from_int_in_viewing_conditions(*a, &vc_real(v));
        same_cam(&c, &refm::cam(*a, &vc_ref(v)), &format!("{a:#x} in {v:?}"))?;
        Ok(if gray(*a) { "" } else { "color" })
    });
    // Conditions that differ in some parameters, one after the other.
    ctx.search("neighbours", ctx.n(60_000, 1_000_000), || (gen::argb(), gen::vc_in(), gen::vc_in(), prop::collection::vec((1u8..128, 0u8..8), 1..5)), |(a, v, w, masks)| {
        let mut x = *a;
        for (mask, m) in [(0u8, 0u8)].iter().chain(masks) {
            let v = gen::vc_mixed(v, w, *mask);
            x = gen::near_argb(x, &(*m, 1.0, -1.0, 1.0));
            let c = Cam16::from_int_in_viewing_conditions(x, &vc_real(&v));
            same_cam(&c, &refm::cam(x, &vc_ref(&v)), &format!("{x:#x} in {v:?}"))?;
        }
        Ok(if gray(x) { "" } else { "color" })
    });
    // Colors between the 8-bit ones.
    ctx.search("xyz", ctx.n(400_000, 4_000_000), || (0.0..100.0f64, 0.0..100.0f64, 0.0..100.0f64, gen::vc_in(), any::<bool>()), |(r, g, b, v, dim)| {
        let k = if *dim { 0.02 } else { 1.0 };
        let x = refm::mul(&refm::SRGB_TO_XYZ, [r * k, g * k, b * k]);
        let c = Cam16::from_xyz_in_viewing_conditions(x[0], x[1], x[2], &vc_real(v));
        same_cam(&c, &refm::cam_of_xyz(x, &vc_ref(v)), &format!("XYZ {x:?} in {v:?}"))?;
        Ok("xyz")
    });
}

// ------------------------------------------------------------------ C05
pub const C05: Prop = Prop {
    id: "C05",
    rule: "non-trivial: colors that are not gray, pairs of different colors",
    assumptions: &["same ranges of viewing conditions as C04"],
    run: c05,
};
/// A color shown for an XYZ value, which need not lie in the gamut.
fn shown(argb: i64, x: [f64; 3], what: &str) -> Result<(), String> {
    let want = CU::argb_from_xyz(x[0], x[1], x[2]);
    let far = refm::rgb(argb).iter().zip(refm::rgb(want)).any(|(a, b)| (a - b).abs() > 1);
    ensure!(argb >> 24 == 255 && !far, "{what} is {argb:#x}, want {want:#x}");
    Ok(())
}
fn c05(ctx: &Ctx) {
    let dvc = refm::Vc::default();
    ctx.sweep("round-trip", 1 << 24, |i| {
        let a = 0xff000000 | *i as i64;
        let c = Cam16::from_int(a);
        ensure!(c.to_int() == a, "{a:#x} comes back as {:#x}", c.to_int());
        Ok(if gray(a) { "" } else { "color" })
    });
    ctx.search("viewed", ctx.n(300_000, 6_000_000), || (gen::argb(), gen::vc_in()), |(a, v)| {
        let vc = vc_real(v);
        let c = Cam16::from_int_in_viewing_conditions(*a, &vc);
        let back = c.viewed(&vc);
        ensure!(back == *a, "{a:#x} seen and reproduced in {v:?} is {back:#x}");
        let x = c.xyz_in_viewing_conditions(&vc, None);
        let y = c.xyz_in_viewing_conditions(&vc, Some(&vec![0.0, 0.0, 0.0]));
        ensure!(x == y, "the array argument matters");
        let w = CU::xyz_from_argb(*a);
        for k in 0..3 {
            ensure!(close(x[k], w[k], 1e-5, 1e-4), "{a:#x} in {v:?} has XYZ {x:?}, want {w:?}");
        }
        Ok(if gray(*a) { "" } else { "color" })
    });
    ctx.search("inverse-xyz", ctx.n(300_000, 3_000_000), || (gen::hue(), gen::real(0.0, 60.0), gen::real(1.0, 100.0), gen::vc_in()), |(h, c, j, v)| {
        let (vc, rv) = (vc_real(v), vc_ref(v));
        let cam = Cam16::from_jch_in_viewing_conditions(*j, *c, *h, &vc);
        let w = refm::xyz_of_jch(*j, *c, *h, &rv);
        if !w.iter().all(|x| x.is_finite() && x.abs() < 1e4) {
            return Ok("");
        }
        let x = cam.xyz_in_viewing_conditions(&vc, None);
        for k in 0..3 {
            ensure!(close(x[k], w[k], 1e-5, 1e-4), "JCh ({j}, {c}, {h}) in {v:?} has XYZ {x:?}, want {w:?}");
        }
        Ok("xyz")
    });
    // One appearance reproduced in conditions that differ in some parameters, one
    // after the other.
    ctx.search("neighbours", ctx.n(30_000, 500_000), || (gen::hue(), gen::real(0.0, 60.0), gen::real(1.0, 100.0), gen::vc_in(), gen::vc_in(), prop::collection::vec((1u8..128, prop::option::of(gen::near_steps(1))), 1..5)), |(h, c, j, v, w, masks)| {
        let mut at = [*j, *c, *h];
        let mut label = "";
        for (mask, step) in [(0u8, None)].iter().chain(masks) {
            let v = gen::vc_mixed(v, w, *mask);
            if let Some(s) = step {
                at = gen::visit(at, s)[1];
                at = [at[0].clamp(1.0, 100.0), at[1].max(0.0), refm::deg(at[2])];
            }
            let [j, c, h] = at;
            let (vc, rv) = (vc_real(&v), vc_ref(&v));
            let want = refm::cam_jch(j, c, h, &rv);
            same_cam(&Cam16::from_jch_in_viewing_conditions(j, c, h, &vc), &want, &format!("JCh ({j}, {c}, {h}) in {v:?}"))?;
            same_cam(&Cam16::from_ucs_in_viewing_conditions(want.ucs[0], want.ucs[1], want.ucs[2], &vc), &want, &format!("UCS {:?} in {v:?}", want.ucs))?;
            let x = refm::xyz_of_jch(j, c, h, &rv);
            if !x.iter().all(|k| k.is_finite() && k.abs() < 1e4) {
                continue;
            }
            let got = Cam16::from_jch_in_viewing_conditions(j, c, h, &vc).xyz_in_viewing_conditions(&vc, None);
            for k in 0..3 {
                ensure!(close(got[k], x[k], 1e-5, 1e-4), "JCh ({j}, {c}, {h}) in {v:?} has XYZ {got:?}, want {x:?}");
            }
            label = "xyz";
        }
        // one and the same value, viewed here and there
        let seen = Cam16::from_jch(*j, *c, *h);
        for (mask, _) in [(0u8, None)].iter().chain(masks) {
            let v = gen::vc_mixed(v, w, *mask);
            let x = refm::xyz_of_jch(*j, *c, *h, &vc_ref(&v));
            if x.iter().all(|k| k.abs() < 150.0) {
                shown(seen.viewed(&vc_real(&v)), x, &format!("JCh ({j}, {c}, {h}) viewed in {v:?}"))?;
            }
        }
        Ok(label)
    });
    ctx.search("jch", ctx.n(300_000, 4_000_000), || (gen::argb(), gen::vc_in()), |(a, v)| {
        let (vc, rv) = (vc_real(v), vc_ref(v));
        let c = Cam16::from_int_in_viewing_conditions(*a, &vc);
        if c.j > 0.0 {
            let w = refm::cam(*a, &rv);
            same_cam(&Cam16::from_jch_in_viewing_conditions(c.j, c.chroma, c.hue, &vc), &w, &format!("JCh of {a:#x} in {v:?}"))?;
        }
        let d = Cam16::from_int(*a);
        let u = Cam16::from_ucs(d.jstar, d.astar, d.bstar);
        let wd = refm::cam(*a, &dvc);
        if d.j > 0.0 {
            same_cam(&Cam16::from_jch(d.j, d.chroma, d.hue), &wd, &format!("JCh of {a:#x}"))?;
            same_cam(&u, &wd, &format!("UCS of {a:#x}"))?;
            let u = Cam16::from_ucs_in_viewing_conditions(c.jstar, c.astar, c.bstar, &vc);
            same_cam(&u, &refm::cam(*a, &rv), &format!("UCS of {a:#x} in {v:?}"))?;
        }
        ensure!(u.to_int() == *a, "{a:#x} through UCS is {:#x}", u.to_int());
        Ok(if gray(*a) { "" } else { "color" })
    });
    // Arbitrary points of the two spaces, not only those of 8-bit colors.
    ctx.search("spaces", ctx.n(300_000, 4_000_000), || (gen::real(0.01, 100.0), gen::real(0.0, 120.0), gen::hue(), gen::vc_in()), |(j, c, h, v)| {
        let (vc, rv) = (vc_real(v), vc_ref(v));
        let w = refm::cam_jch(*j, *c, *h, &rv);
        let got = Cam16::from_jch_in_viewing_conditions(*j, *c, *h, &vc);
        same_cam(&got, &w, &format!("JCh ({j}, {c}, {h}) in {v:?}"))?;
        ensure!(got.j == *j && got.chroma == *c && got.hue == *h, "JCh ({j}, {c}, {h}) is not kept");
        let u = Cam16::from_ucs_in_viewing_conditions(w.ucs[0], w.ucs[1], w.ucs[2], &vc);
        same_cam(&u, &w, &format!("UCS {:?} in {v:?}", w.ucs))?;
        let x = refm::xyz_of_jch(*j, *c, *h, &rv);
        if x.iter().all(|k| k.abs() < 150.0) {
            shown(got.viewed(&vc), x, &format!("JCh ({j}, {c}, {h}) viewed in {v:?}"))?;
        }
        let d = refm::cam_jch(*j, *c, *h, &dvc);
        same_cam(&Cam16::from_jch(*j, *c, *h), &d, &format!("JCh ({j}, {c}, {h})"))?;
        same_cam(&Cam16::from_ucs(d.ucs[0], d.ucs[1], d.ucs[2]), &d, &format!("UCS {:?}", d.ucs))?;
        let x = refm::xyz_of_jch(*j, *c, *h, &dvc);
        if x.iter().all(|k| k.abs() < 150.0) {
            shown(got.to_int(), x, &format!("JCh ({j}, {c}, {h})"))?;
        }
        Ok("point")
    });
    ctx.search("distance", ctx.n(400_000, 4_000_000), || (gen::argb(), gen::argb(), gen::argb(), any::<bool>(), gen::vc_in()), |(a, b, c, def, v)| {
        let vc = if *def { ViewingConditions::s_rgb() } else { vc_real(v) };
        let [x, y, z] = [*a, *b, *c].map(|k| Cam16::from_int_in_viewing_conditions(k, &vc));
        let d = x.distance(&y);
        ensure!(x.distance(&x) <= 1e-12, "{a:#x} is {} from itself", x.distance(&x));
        ensure!(close(d, y.distance(&x), 1e-12, 1e-12), "distance of {a:#x} and {b:#x} is not symmetric");
        let e = ((x.jstar - y.jstar).powi(2) + (x.astar - y.astar).powi(2) + (x.bstar - y.bstar).powi(2)).sqrt();
        ensure!(close(d, 1.41 * e.powf(0.63), 1e-9, 1e-9), "distance of {a:#x} and {b:#x} is {d}, want {}", 1.41 * e.powf(0.63));
        ensure!(a == b || d > 0.0, "different colors {a:#x} and {b:#x} at distance 0");
        ensure!(x.distance(&z) <= d + y.distance(&z) + 1e-9, "triangle inequality fails for {a:#x}, {b:#x}, {c:#x}");
        Ok(if a == b { "" } else { "pair" })
    });
}

// ------------------------------------------------------------------ C06
pub const C06: Prop = Prop {
    id: "C06",
    rule: "non-trivial: at least one parameter differs from its default",
    assumptions: &["same ranges of viewing conditions as C04"],
    run: c06,
};
fn fields(g: &ViewingConditions, w: &refm::Vc, what: &str) -> Result<(), String> {
    let t = [
        ("background_y_to_white_point_y", g.background_y_to_white_point_y, w.n),
        ("aw", g.aw, w.aw),
        ("nbb", g.nbb, w.nbb),
        ("ncb", g.ncb, w.nbb),
        ("c", g.c, w.c),
        ("n_c", g.n_c, w.nc),
        ("fl", g.fl, w.fl),
        ("f_lroot", g.f_lroot, w.fl.powf(0.25)),
        ("z", g.z, w.z),
        ("rgb_d[0]", g.rgb_d[0], w.d[0]),
        ("rgb_d[1]", g.rgb_d[1], w.d[1]),
        ("rgb_d[2]", g.rgb_d[2], w.d[2]),
    ];
    for (n, a, b) in t {
        ensure!(close(a, b, 1e-9, 1e-12), "{what}: {n} is {a}, want {b}");
    }
    Ok(())
}
fn c06(ctx: &Ctx) {
    ctx.pinned("defaults", vec![0u64], |_| {
        let w = refm::Vc::default();
        for (n, v) in [("standard", ViewingConditions::standard()), ("s_rgb", ViewingConditions::s_rgb()), ("make", ViewingConditions::make(None, None, None, None, None))] {
            fields(&v, &w, n)?;
            ensure!(v.white_point == refm::D65.to_vec() && v.background_lstar == 50.0 && v.surround == 2.0 && !v.discounting_illuminant && close(v.adapting_luminance, refm::default_la(), 1e-12, 0.0), "{n}: parameters");
        }
        Ok("defaults")
    });
    ctx.search("fields", ctx.n(400_000, 6_000_000), || (gen::vc_in(), 0u8..32), |(v, given)| {
        let wp = gen::vc_white(v);
        let got = ViewingConditions::make(
            (given & 1 != 0).then(|| wp.to_vec()),
            (given & 2 != 0).then_some(v.3),
            (given & 4 != 0).then_some(v.4),
            (given & 8 != 0).then_some(v.5),
            (given & 16 != 0).then_some(v.6),
        );
        let la = if given & 2 != 0 { v.3 } else { refm::default_la() };
        let bg = if given & 4 != 0 { v.4 } else { 50.0 };
        let wp = if given & 1 != 0 { wp } else { refm::D65 };
        let sur = if given & 8 != 0 { v.5 } else { 2.0 };
        let dis = given & 16 != 0 && v.6;
        fields(&got, &refm::Vc::make(wp, la, bg, sur, dis), &format!("{v:?} mask {given}"))?;
        ensure!(close(got.adapting_luminance, la, 1e-12, 0.0) && got.surround == sur && got.discounting_illuminant == dis && got.white_point == wp.to_vec(), "parameters are not kept: {v:?} mask {given}");
        ensure!(got.background_lstar == bg.max(0.1), "background L* {bg} became {}", got.background_lstar);
        Ok(if *given == 0 { "" } else { "given" })
    });
    ctx.search("neighbours", ctx.n(100_000, 1_000_000), || (gen::vc_in(), gen::vc_in(), prop::collection::vec(1u8..128, 1..5)), |(v, w, masks)| {
        for mask in [0u8].iter().chain(masks) {
            let v = gen::vc_mixed(v, w, *mask);
            fields(&vc_real(&v), &vc_ref(&v), &format!("{v:?}"))?;
        }
        Ok("neighbours")
    });
    ctx.search("unset-luminance", ctx.n(50_000, 500_000), || (gen::vc_in(), -100.0..=0.0f64), |(v, la)| {
        let got = ViewingConditions::make(Some(gen::vc_white(v).to_vec()), Some(*la), Some(v.4), Some(v.5), Some(v.6));
        fields(&got, &refm::Vc::make(gen::vc_white(v), refm::default_la(), v.4, v.5, v.6), &format!("luminance {la}, {v:?}"))?;
        Ok("unset")
    });
    ctx.search("refused", ctx.n(20_000, 200_000), || (gen::vc_in(), prop_oneof![2.0..4.0f64, -2.0..0.0f64, gen::real(2.0, 1000.0), Just(2.0000000000000004), Just(-5e-324)]), |(v, sur)| {
        if (0.0..=2.0).contains(sur) {
            return Ok("");
        }
        let got = crate::engine::guarded(|| ViewingConditions::make(Some(gen::vc_white(v).to_vec()), Some(v.3), Some(v.4), Some(*sur), Some(v.6)).surround);
        ensure!(got.is_err(), "a surround of {sur} is accepted");
        Ok("refused")
    });
    // A color translated to other viewing conditions.
    let dvc = refm::Vc::default();
    ctx.search("translate", ctx.n(150_000, 3_000_000), || (gen::argb(), gen::vc_in()), |(a, v)| -> Outcome {
        let x = Hct::from_int(*a);
        let got = x.in_viewing_conditions(&vc_real(v)).to_int();
        let w = refm::cam(*a, &dvc);
        let seen = refm::xyz_of_jch(w.j, w.c, w.h, &vc_ref(v));
        if !seen.iter().all(|x| x.is_finite()) || seen[1] < 0.0 {
            return Ok("");
        }
        let c = refm::cam_of_xyz(seen, &dvc);
        if !(c.h.is_finite() && c.c.is_finite()) {
            return Ok("");
        }
        let t = refm::l_of_y(seen[1]);
        let want = Hct::from(c.h, c.c, t).to_int();
        if got == want {
            return Ok("translated");
        }
        // Rounding may flip a channel by one.
        let (p, q) = (refm::rgb(got), refm::rgb(want));
        ensure!((0..3).all(|k| (p[k] - q[k]).abs() <= 1), "{a:#x} in {v:?} is {got:#x}, want {want:#x}");
        Ok("rounding")
    });
    ctx.search("identity", ctx.n(150_000, 3_000_000), gen::argb, |a| {
        let x = Hct::from_int(*a).in_viewing_conditions(&ViewingConditions::s_rgb()).to_int();
        ensure!(x == *a, "{a:#x} in the default viewing conditions is {x:#x}");
        Ok(if gray(*a) { "" } else { "color" })
    });
}
