//! C26-C27: color temperature.
use super::Prop;
use crate::engine::{Ctx, Outcome};
use crate::gen;
use crate::refm::{self, close};
use material_color_utilities_rs::{hct::hct::Hct, temperature::temperature_cache::TemperatureCache};
use proptest::prelude::*;

/// Ou, Woodcock and Wright's warm-cool factor.
pub fn ref_raw(argb: i64) -> f64 {
    let [_, a, b] = refm::lab(argb);
    let hue = b.atan2(a).to_degrees();
    -0.5 + 0.02 * a.hypot(b).powf(1.07) * (hue - 50.0).to_radians().cos()
}
fn label(a: i64) -> &'static str {
    let [r, g, b] = refm::rgb(a);
    if r == g && g == b {
        ""
    } else {
        "chromatic"
    }
}
/// Input colors: any, plus hues next to the seam at 0/360 and to whole and
/// half degrees.
fn input() -> gen::S<i64> {
    prop_oneof![
        5 => gen::argb(),
        2 => (gen::hue(), gen::chroma(), gen::tone()).prop_map(|(h, c, t)| gen::hct_color(h, c, t)),
        2 => (prop_oneof![Just(0.0), Just(359.5), Just(180.0)], -1.5..1.5f64, 5.0..110.0f64, 5.0..95.0f64).prop_map(|(h, n, c, t)| gen::hct_color(refm::deg(h + n), c, t)),
        1 => (gen::hue(), 0.0..6.0f64, gen::tone()).prop_map(|(h, c, t)| gen::hct_color(h, c, t)),
    ]
    .boxed()
}

// ------------------------------------------------------------------ C26
pub const C26: Prop = Prop {
    id: "C26",
    rule: "non-trivial: the color is not gray (gray colors have one temperature for all hues)",
    assumptions: &["relative temperatures are asked only for colors of the cache's own wheel and its input"],
    run: c26,
};
fn check_raw(argb: i64) -> Outcome {
    let got = TemperatureCache::raw_temperature(&Hct::from_int(argb));
    let want = ref_raw(argb);
    ensure!((got - want).abs() <= 1e-6, "temperature of {argb:#x} is {got}, want {want}");
    Ok(label(argb))
}
struct Wheel {
    colors: Vec<i64>,
    cold: f64,
    warm: f64,
}
impl Wheel {
    fn of(argb: i64) -> Wheel {
        let h = Hct::from_int(argb);
        let colors: Vec<i64> = (0..360).map(|d| Hct::from(d as f64, h.get_chroma(), h.get_tone()).to_int()).collect();
        let all: Vec<f64> = colors.iter().chain([&argb]).map(|a| ref_raw(*a)).collect();
        Wheel { colors, cold: all.iter().copied().fold(f64::MAX, f64::min), warm: all.iter().copied().fold(f64::MIN, f64::max) }
    }
    /// Too flat to tell warm from cold.
    fn flat(&self) -> bool {
        self.warm - self.cold < 1e-5
    }
    fn relative(&self, argb: i64) -> f64 {
        (ref_raw(argb) - self.cold) / (self.warm - self.cold)
    }
}
fn check_extremes(argb: i64, order: u8) -> Outcome {
    let h = Hct::from_int(argb);
    let w = Wheel::of(argb);
    let mut t = TemperatureCache::new(h.clone());
    // The lazily filled parts may be asked for in any order.
    match order {
        0 => {}
        1 => drop(t.get_input_relative_temperature()),
        2 => drop(t.get_complement()),
        3 => drop(t.get_temps_by_hct()),
        4 => drop(t.get_warmest()),
        _ => drop(t.relative_temperature(&h)),
    }
    let by_hue = t.get_hcts_by_hue();
    ensure!(by_hue.len() >= 360, "{argb:#x}: wheel of {} colors", by_hue.len());
    for (i, c) in by_hue.iter().enumerate() {
        ensure!(c.to_int() == w.colors[i % 360], "{argb:#x}: hue {i} of the wheel is {:#x}, want {:#x}", c.to_int(), w.colors[i % 360]);
    }
    let temps = t.get_temps_by_hct();
    for (c, x) in &temps {
        ensure!(close(*x, ref_raw(c.to_int()), 1e-6, 1e-6), "{argb:#x}: the temperature of {:#x} is {x}, want {}", c.to_int(), ref_raw(c.to_int()));
    }
    let keys = temps.keys().map(|c| c.to_int()).collect::<std::collections::BTreeSet<_>>();
    ensure!(w.colors.iter().chain([&argb]).all(|c| keys.contains(c)) && keys.iter().all(|c| *c == argb || w.colors.contains(c)), "{argb:#x}: temperatures are not those of the wheel and the input");
    let by_temp = t.get_hcts_by_temp();
    let mut last = f64::MIN;
    for c in &by_temp {
        let x = ref_raw(c.to_int());
        ensure!(x >= last - 1e-6, "{argb:#x}: colors by temperature are not sorted at {:#x}", c.to_int());
        last = last.max(x);
    }
    let sorted = |mut v: Vec<i64>| {
        v.sort();
        v
    };
    let mut all: Vec<i64> = by_hue.iter().map(|c| c.to_int()).collect();
    all.push(argb);
    ensure!(sorted(by_temp.iter().map(|c| c.to_int()).collect()) == sorted(all), "{argb:#x}: colors by temperature are not the wheel and the input");
    let (cold, warm) = (t.get_coldest(), t.get_warmest());
    ensure!((ref_raw(cold.to_int()) - w.cold).abs() <= 1e-6, "{argb:#x}: coldest {:#x} has {}, want {}", cold.to_int(), ref_raw(cold.to_int()), w.cold);
    ensure!((ref_raw(warm.to_int()) - w.warm).abs() <= 1e-6, "{argb:#x}: warmest {:#x} has {}, want {}", warm.to_int(), ref_raw(warm.to_int()), w.warm);
    let input = t.get_input_relative_temperature();
    ensure!((-1e-9..=1.0 + 1e-9).contains(&input), "{argb:#x}: input relative temperature {input}");
    if !w.flat() {
        let want = w.relative(argb);
        ensure!(close(input, want, 1e-6, 1e-6), "{argb:#x}: input relative temperature {input}, want {want}");
        ensure!((t.relative_temperature(&h) - input).abs() <= 1e-9, "{argb:#x}: relative temperature of the input differs from the input's");
        for i in (0..360).step_by(45) {
            let c = &by_hue[(i + argb as usize) % 360];
            let got = t.relative_temperature(c);
            let want = w.relative(c.to_int());
            ensure!(close(got, want, 1e-6, 1e-6), "{argb:#x}: relative temperature of {:#x} is {got}, want {want}", c.to_int());
        }
        ensure!(t.relative_temperature(&cold).abs() <= 1e-9 && (t.relative_temperature(&warm) - 1.0).abs() <= 1e-9, "{argb:#x}: extremes are not 0 and 1");
    } else if w.colors.iter().all(|c| *c == argb) {
        ensure!(input == 0.5 && t.relative_temperature(&h) == 0.5, "{argb:#x}: one color, relative temperature {input}");
    }
    ensure!(t.get_input_relative_temperature() == input && t.get_coldest() == cold && t.get_warmest() == warm, "{argb:#x}: a second call differs");
    Ok(label(argb))
}
/// What one question to a cache answers, as numbers.
fn ask(t: &mut TemperatureCache, op: u8, x: i64) -> Vec<f64> {
    let ints = |v: Vec<Hct>| v.iter().map(|c| c.to_int() as f64).collect::<Vec<f64>>();
    match op {
        0 => ints(vec![t.get_warmest()]),
        1 => ints(vec![t.get_coldest()]),
        2 => ints(t.get_hcts_by_hue()),
        3 => ints(t.get_hcts_by_temp()),
        4 => vec![t.get_input_relative_temperature()],
        5 => {
            let h = t.input.clone();
            vec![t.relative_temperature(&h)]
        }
        6 => {
            let c = t.get_hcts_by_hue()[(x.rem_euclid(360)) as usize].clone();
            vec![t.relative_temperature(&c)]
        }
        7 => {
            let mut v: Vec<(i64, f64)> = t.get_temps_by_hct().iter().map(|(c, x)| (c.to_int(), *x)).collect();
            v.sort_by_key(|a| a.0);
            v.iter().flat_map(|(c, x)| [*c as f64, *x]).collect()
        }
        8 => ints(vec![t.get_complement()]),
        9 => ints(t.analogous(None, None)),
        _ => ints(t.analogous(Some(1 + x.rem_euclid(9)), Some(1 + x.rem_euclid(13)))),
    }
}
/// Whatever was asked before, the answer is that of a new cache.
fn check_history(argb: i64, ops: &[(u8, i64)]) -> Outcome {
    let mut t = TemperatureCache::new(Hct::from_int(argb));
    for (k, (op, x)) in ops.iter().enumerate() {
        let got = ask(&mut t, *op, *x);
        let want = ask(&mut TemperatureCache::new(Hct::from_int(argb)), *op, *x);
        ensure!(got == want, "{argb:#x}, step {k}: question {op} ({x}) gives {got:?}, a new cache {want:?}");
        ensure!(t.input.to_int() == argb, "{argb:#x}, step {k}: the input changes");
    }
    Ok(if ops.len() > 1 { "history" } else { "" })
}
fn c26(ctx: &Ctx) {
    ctx.search("histories", ctx.n(600, 15_000), || (input(), prop::collection::vec((0u8..9, 0i64..360), 2..10)), |(a, ops)| check_history(*a, ops));
    ctx.sweep("raw-all-opaque", 1 << 24, |i| check_raw(0xff000000 | *i as i64));
    ctx.search("neighbours", ctx.n(1_000, 20_000), || (input(), 0u8..6, gen::near_steps(3)), |(a, o, steps)| {
        let mut a = *a;
        let mut label = check_extremes(a, *o)?;
        for s in steps {
            a = gen::near_argb(a, s);
            label = check_extremes(a, *o)?;
        }
        Ok(label)
    });
    ctx.search("raw", ctx.n(50_000, 500_000), gen::argb_alpha, |a| check_raw(*a));
    ctx.pinned("extremes-corner", vec![(0xff000000i64, 0u8), (0xffffffff, 0), (0xff777777, 1), (0xffff0000, 0), (0xff00ff00, 0), (0xff0000ff, 0)], |(a, o)| check_extremes(*a, *o));
    ctx.search("extremes", ctx.n(6_000, 150_000), || (input(), 0u8..6), |(a, o)| check_extremes(*a, *o));
    ctx.search("between", ctx.n(200_000, 2_000_000), || (gen::hue(), gen::hue(), gen::hue()), |(x, a, b)| {
        let got = TemperatureCache::is_between(*x, *a, *b);
        // rotating from a up to b passes x
        let want = if a < b { a <= x && x <= b } else { x >= a || x <= b };
        ensure!(got == want, "{x} between {a} and {b}: {got}");
        Ok("between")
    });
}

// ------------------------------------------------------------------ C27
pub const C27: Prop = Prop {
    id: "C27",
    rule: "non-trivial: the wheel of the input has a temperature range (it is not gray, black or white)",
    assumptions: &[
        "counts and divisions are at least 1",
        "analogues are compared with the reference only where no temperature step is within 1e-9 of a tie; every case is checked for size, membership and position of the input",
    ],
    run: c27,
};
fn check_complement(argb: i64) -> Outcome {
    let h = Hct::from_int(argb);
    let w = Wheel::of(argb);
    let mut t = TemperatureCache::new(h.clone());
    let got = t.get_complement();
    ensure!(t.get_complement().to_int() == got.to_int(), "{argb:#x}: the second complement differs");
    let c = got.to_int();
    ensure!(w.colors.contains(&c), "{argb:#x}: complement {c:#x} is not on the wheel");
    if w.flat() {
        return Ok("");
    }
    let (cold, warm) = (t.get_coldest().get_hue(), t.get_warmest().get_hue());
    let input = h.get_hue();
    // The arc that does not contain the input, walked in whole degrees.
    let inside = |x: f64, a: f64, b: f64| if a < b { a <= x && x <= b } else { x >= a || x <= b };
    let (a, b) = if inside(input, cold, warm) { (warm, cold) } else { (cold, warm) };
    let goal = 1.0 - w.relative(argb);
    let mut best = f64::MAX;
    let mut mine = f64::MAX;
    for i in 0..360 {
        let x = refm::deg(a + i as f64);
        if !inside(x, a, b) {
            continue;
        }
        // a hue exactly between two degrees may go either way
        let near = (x - x.floor() - 0.5).abs() < 1e-9;
        for d in if near { vec![x.floor(), x.ceil()] } else { vec![(x + 0.5).floor()] } {
            let cand = w.colors[d as usize % 360];
            let e = (w.relative(cand) - goal).abs();
            best = best.min(e);
            if cand == c {
                mine = mine.min(e);
            }
        }
    }
    ensure!(mine <= best + 1e-6, "{argb:#x}: complement {c:#x} misses temperature {goal} by {mine}, {best} is possible on the other side");
    Ok(label(argb))
}
/// The divisions of the wheel, or None when a step is too close to call.
fn ref_divisions(argb: i64, divisions: i64, w: &Wheel) -> Option<Vec<i64>> {
    let start = (Hct::from_int(argb).get_hue() + 0.5).floor() as i64;
    let color = |i: i64| w.colors[(start + i).rem_euclid(360) as usize];
    let rel = |i: i64| w.relative(color(i));
    let total: f64 = (1..360).map(|i| (rel(i) - rel(i - 1)).abs()).sum();
    let step = total / divisions as f64;
    let mut out = vec![color(0)];
    let mut gone = 0.0;
    let mut clear = true;
    let mut reached = |gone: f64, k: usize| {
        let want = k as f64 * step;
        if (gone - want).abs() < 1e-9 {
            clear = false;
        }
        gone >= want
    };
    for i in 1..=360 {
        if out.len() as i64 >= divisions {
            break;
        }
        gone += (rel(i) - rel(i - 1)).abs();
        let mut ok = reached(gone, out.len());
        let mut extra = 1;
        while ok && (out.len() as i64) < divisions {
            out.push(color(i));
            ok = reached(gone, out.len() + extra);
            extra += 1;
        }
    }
    while (out.len() as i64) < divisions {
        out.push(color(360));
    }
    if clear {
        Some(out)
    } else {
        None
    }
}
fn check_analogous(argb: i64, count: Option<i64>, divisions: Option<i64>) -> Outcome {
    let h = Hct::from_int(argb);
    let w = Wheel::of(argb);
    let mut t = TemperatureCache::new(h.clone());
    let got: Vec<i64> = t.analogous(count, divisions).iter().map(|c| c.to_int()).collect();
    let (n, d) = (count.unwrap_or(5), divisions.unwrap_or(12));
    let what = || format!("{argb:#x}: {count:?} analogues of {divisions:?} divisions are {got:x?}");
    ensure!(got.len() as i64 == n, "{}", what());
    let before = (n - 1) / 2;
    ensure!(got[before as usize] == argb, "{}: the input is not at {before}", what());
    for (i, c) in got.iter().enumerate() {
        ensure!(i as i64 == before || w.colors.contains(c), "{}: {c:#x} is not on the wheel", what());
    }
    if w.flat() {
        return Ok("");
    }
    let Some(div) = ref_divisions(argb, d, &w) else {
        return Ok("tie");
    };
    for (i, c) in got.iter().enumerate() {
        let k = i as i64 - before;
        if k == 0 {
            continue;
        }
        let want = div[k.rem_euclid(d) as usize];
        ensure!(*c == want, "{}: {k} steps from the input, want {want:#x} of {div:x?}", what());
    }
    Ok(if d < n { "repeating" } else { "analogous" })
}
fn c27(ctx: &Ctx) {
    ctx.pinned("corners", vec![0xff000000i64, 0xffffffff, 0xff777777, 0xffff0000, 0xff00ff00, 0xff0000ff, 0xffffff00, 0xff00ffff, 0xffff00ff], |a| {
        check_complement(*a)?;
        check_analogous(*a, None, None)
    });
    ctx.search("histories", ctx.n(60, 1_500), || (input(), prop::collection::vec((prop_oneof![1 => 0u8..8, 3 => 8u8..11], 0i64..360), 2..5)), |(a, ops)| check_history(*a, ops));
    ctx.search("neighbours", ctx.n(600, 12_000), || (input(), gen::near_steps(3), 1i64..6, 2i64..14), |(a, steps, n, d)| {
        let mut a = *a;
        check_complement(a)?;
        for (k, s) in steps.iter().enumerate() {
            a = gen::near_argb(a, s);
            check_complement(a)?;
            if k == 0 {
                check_analogous(a, Some(*n), Some(*d))?;
            }
        }
        Ok(label(a))
    });
    ctx.search("complement", ctx.n(4_000, 80_000), input, |a| check_complement(*a));
    let small = || prop::option::of(gen::with_novel_int(prop_oneof![3 => 1i64..14, 1 => 1i64..40].boxed(), 1, 60));
    ctx.search("analogous", ctx.n(900, 12_000), move || (input(), small(), small()), |(a, n, d)| check_analogous(*a, *n, *d));
}
