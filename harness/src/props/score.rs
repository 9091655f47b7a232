//! C28: ranking colors for a theme.
use super::Prop;
use crate::engine::{Ctx, Outcome};
use crate::gen;
use crate::refm::dh;
use material_color_utilities_rs::{hct::hct::Hct, score::score::Score};
use proptest::prelude::*;
use std::collections::HashMap;

pub const C28: Prop = Prop {
    id: "C28",
    rule: "non-trivial: at least two colors are suitable; classes tell cases whose ranking is compared with the reference from those with near ties, where only the invariants are checked",
    assumptions: &["populations are not negative, their sum fits into 53 bits, and at least one color is wanted"],
    run: c28,
};

type In = (Vec<(i64, i64)>, Option<i64>, Option<i64>, Option<bool>);
fn population() -> gen::S<i64> {
    prop_oneof![4 => 1i64..200, 2 => 1i64..100_000, 1 => 0i64..3, 1 => Just(1i64), 1 => 1i64..1_000_000_000_000, 1 => (1u32..45, -2i64..=2).prop_map(|(k, d)| ((1i64 << k) + d).max(0)), 1 => gen::int(1, 1_000_000)].boxed()
}
fn colors() -> gen::S<Vec<(i64, i64)>> {
    let free = prop::collection::vec((gen::argb(), population()), 0..24);
    // similar hues, similar chroma, many near-grays
    let close = (gen::hue(), prop::collection::vec((-40.0..40.0f64, gen::chroma(), gen::tone(), population()), 1..20)).prop_map(|(h, v)| {
        v.into_iter().map(|(d, c, t, p)| (gen::hct_color(crate::refm::deg(h + d), c, t), p)).collect()
    });
    let ring = (gen::hue(), 14.0..95.0f64, 1usize..9, 3.0..70.0f64, 20.0..90.0f64, prop::collection::vec(population(), 9..=9)).prop_map(|(h, step, n, c, t, p)| {
        (0..n).map(|i| (gen::hct_color(crate::refm::deg(h + i as f64 * step), c, t), p[i])).collect()
    });
    let gray = prop::collection::vec((any::<u8>(), 0u8..6, 0u8..6, population()), 0..10).prop_map(|v| {
        v.into_iter().map(|(g, a, b, p)| (gen::rgb_argb(g, g.saturating_add(a), g.saturating_sub(b)), p)).collect()
    });
    // one huge color and small ones around one percent of it
    let rare = (gen::argb(), prop::collection::vec((gen::argb(), 50i64..200), 1..8)).prop_map(|(big, small)| {
        let mut v = small;
        v.push((big, 10_000));
        v
    });
    // a color with exactly one percent of the pixels, or just more or less
    let percent = (gen::hue(), 25.0..180.0f64, 0u32..40, -1i64..=1, prop::collection::vec((gen::chroma(), gen::tone()), 3..=3)).prop_map(|(h, apart, k, d, v)| {
        let p = (1i64 << k) + d;
        let rest = 99 * (1i64 << k);
        let c = |i: usize, h: f64| gen::hct_color(crate::refm::deg(h), v[i].0.max(12.0), v[i].1.clamp(20.0, 90.0));
        vec![(c(0, h), p), (c(1, h + apart), rest / 3 * 2), (c(2, h - apart), rest - rest / 3 * 2)]
    });
    // pairs of hues about fifteen degrees apart, and hues around zero
    let fifteen = (prop_oneof![gen::hue(), -3.0..3.0f64], prop::collection::vec((12.0..18.0f64, 10.0..60.0f64, 25.0..85.0f64, population()), 2..9)).prop_map(|(h, v)| {
        let mut h = h;
        v.into_iter()
            .map(|(d, c, t, p)| {
                h += d;
                (gen::hct_color(crate::refm::deg(h), c, t), p)
            })
            .collect()
    });
    prop_oneof![4 => free, 3 => close, 3 => ring, 1 => gray, 2 => rare, 1 => percent, 2 => fifteen].boxed()
}
fn input() -> gen::S<In> {
    (
        colors(),
        prop::option::weighted(0.7, gen::with_novel_int(prop_oneof![4 => 1i64..8, 1 => 1i64..30].boxed(), 1, 60)),
        prop::option::weighted(0.3, gen::argb()),
        prop::option::weighted(0.6, any::<bool>()),
    )
        .boxed()
}

struct Scored {
    argb: i64,
    hue: f64,
    chroma: f64,
    share: f64,
    score: f64,
}
/// Reference ranking. None when a threshold or an order is too close to call.
fn reference(colors: &[(i64, i64)], desired: usize, fallback: i64, filter: bool) -> Option<Vec<i64>> {
    let total: i64 = colors.iter().map(|c| c.1).sum();
    let near = |a: f64, b: f64| (a - b).abs() < 1e-7;
    let mut list = Vec::new();
    let coords: Vec<(f64, f64)> = colors.iter().map(|(a, _)| (Hct::from_int(*a).get_hue(), Hct::from_int(*a).get_chroma())).collect();
    for (k, (argb, _)) in colors.iter().enumerate() {
        let (hue, chroma) = coords[k];
        // share of the pixels whose hue lies within 15 degrees
        let at = ((hue + 0.5).floor() as i64).rem_euclid(360);
        let mut sum = 0i64;
        let mut hues = std::collections::BTreeSet::new();
        for (j, (_, p)) in colors.iter().enumerate() {
            let h = coords[j].0.floor() as i64;
            let ahead = (at - h).rem_euclid(360);
            if ahead <= 15 || ahead >= 360 - 14 {
                sum += p;
                if *p > 0 {
                    hues.insert(h);
                }
            }
        }
        let share = if total == 0 { 0.0 } else { sum as f64 / total as f64 };
        // One percent, all of it in one degree of hue, is one percent in any
        // arithmetic.
        let exact = hues.len() == 1 && (sum as u64).is_power_of_two() && sum as i128 * 100 == total as i128;
        if filter && (near(chroma, 5.0) || (near(share, 0.01) && !exact)) {
            return None;
        }
        if filter && (chroma < 5.0 || exact || share <= 0.01) {
            continue;
        }
        if near(chroma, 48.0) {
            return None;
        }
        let score = share * 70.0 + (chroma - 48.0) * if chroma < 48.0 { 0.1 } else { 0.3 };
        list.push(Scored { argb: *argb, hue, chroma, share, score });
    }
    list.sort_by(|a, b| b.score.partial_cmp(&a.score).unwrap());
    for w in list.windows(2) {
        if near(w[0].score, w[1].score) {
            return None;
        }
    }
    let mut chosen: Vec<&Scored> = Vec::new();
    for apart in (15..=90).rev() {
        chosen.clear();
        for s in &list {
            if chosen.iter().any(|c| near(dh(c.hue, s.hue), apart as f64)) {
                return None;
            }
            if chosen.iter().all(|c| dh(c.hue, s.hue) >= apart as f64) {
                chosen.push(s);
            }
            if chosen.len() >= desired {
                break;
            }
        }
        if chosen.len() >= desired {
            break;
        }
    }
    if chosen.is_empty() {
        return Some(vec![fallback]);
    }
    Some(chosen.iter().map(|c| c.argb).collect())
}

fn map_of(v: &[(i64, i64)]) -> HashMap<i64, i64> {
    v.iter().copied().collect()
}
fn check(i: &In) -> Outcome {
    let (raw, desired, fallback, filter) = i;
    let map = map_of(raw);
    let mut colors: Vec<(i64, i64)> = map.iter().map(|(a, b)| (*a, *b)).collect();
    colors.sort();
    let got = Score::score(&map, *desired, *fallback, *filter);
    let (n, f, filt) = (desired.unwrap_or(4), fallback.unwrap_or(0xff4285f4), filter.unwrap_or(true));
    let what = || format!("{raw:x?}, desired {n}, filter {filt}: {got:x?}");
    ensure!(!got.is_empty() && got.len() as i64 <= n.max(1), "{}", what());
    // The map's internal order must not matter.
    let rev: Vec<(i64, i64)> = colors.iter().rev().copied().collect();
    for m in [map_of(&rev), map_of(&colors), map.clone()] {
        ensure!(Score::score(&m, *desired, *fallback, *filter) == got, "{}, but another answer for the same colors", what());
    }
    let chromatic = colors.iter().filter(|c| Hct::from_int(c.0).get_chroma() >= 5.0 + 1e-6).count();
    if got == [f] && !map.contains_key(&f) {
        ensure!(filt || colors.is_empty(), "{}: fallback although nothing is filtered", what());
    } else {
        let mut seen = std::collections::BTreeSet::new();
        for (k, a) in got.iter().enumerate() {
            ensure!(map.contains_key(a) || (got.len() == 1 && *a == f), "{}: {a:#x} is not one of the colors", what());
            ensure!(seen.insert(*a), "{}: {a:#x} twice", what());
            let h = Hct::from_int(*a);
            if filt && got != [f] {
                ensure!(h.get_chroma() >= 5.0 - 1e-6, "{}: {a:#x} has chroma {}", what(), h.get_chroma());
            }
            for b in &got[..k] {
                let d = dh(h.get_hue(), Hct::from_int(*b).get_hue());
                ensure!(d >= 15.0 - 1e-6, "{}: {a:#x} and {b:#x} are {d} degrees apart", what());
            }
        }
    }
    match reference(&colors, n as usize, f, filt) {
        Some(want) => {
            ensure!(got == want, "{}, want {want:x?}", what());
            Ok(if chromatic < 2 { "" } else if got.len() > 1 { "ranked" } else { "ranked-one" })
        }
        None => Ok(if chromatic < 2 { "" } else { "near-tie" }),
    }
}
fn c28(ctx: &Ctx) {
    ctx.pinned(
        "corners",
        vec![
            (vec![], None, None, None),
            (vec![(0xff000000i64, 1i64), (0xffffffff, 1)], None, None, None),
            (vec![(0xffff0000, 0), (0xff0000ff, 0)], None, None, None),
            (vec![(0xffff0000, 0), (0xff0000ff, 0)], None, None, Some(false)),
            (vec![(0xffff0000, 1)], Some(1), None, None),
        ],
        |i: &In| check(i),
    );
    ctx.search("rank", ctx.n(150_000, 3_000_000), input, |i| check(i));
    // The same colors with one other population, color or argument, in a row.
    ctx.search("neighbours", ctx.n(15_000, 300_000), || (input(), prop::collection::vec((any::<prop::sample::Index>().prop_map(|i| i.index(1 << 20) as u32), 0u8..6, 0i64..2_000, gen::argb()), 1..4)), |(i, edits)| {
        let mut i = i.clone();
        let mut label = check(&i)?;
        for (at, what, n, c) in edits {
            let at = if i.0.is_empty() { 0 } else { *at as usize % i.0.len() };
            match what {
                0 => i.1 = Some(1 + n % 8),
                1 => i.2 = Some(*c),
                2 => i.3 = Some(n % 2 == 0),
                3 if !i.0.is_empty() => i.0[at].0 = *c,
                _ if !i.0.is_empty() => i.0[at].1 = *n,
                _ => i.0.push((*c, *n)),
            }
            label = check(&i)?;
        }
        Ok(label)
    });
    // Multiplying every population by the same power of two changes nothing.
    ctx.search("scale", ctx.n(30_000, 500_000), || (input(), 1u32..9), |((raw, d, f, fl), k)| {
        let a = map_of(raw);
        let b: HashMap<i64, i64> = a.iter().map(|(c, p)| (*c, p << k)).collect();
        let (x, y) = (Score::score(&a, *d, *f, *fl), Score::score(&b, *d, *f, *fl));
        ensure!(x == y, "{raw:x?}: {x:x?}, but with populations times {}: {y:x?}", 1 << k);
        Ok(if x.len() > 1 { "scaled" } else { "" })
    });
}
