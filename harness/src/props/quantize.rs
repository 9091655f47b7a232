//! C29-C33: quantizers and the image-to-theme pipeline.
use super::Prop;
use crate::engine::{Ctx, Outcome};
use crate::gen;
use crate::refm::{self, contrast};
use crate::schemes;
use material_color_utilities_rs::{
    quantize::{
        quantizer::{Quantizer, QuantizerResult},
        quantizer_celebi::QuantizerCelebi,
        quantizer_map::QuantizerMap,
        quantizer_wsmeans::QuantizerWsmeans,
        quantizer_wu::QuantizerWu,
        src::{point_provider::PointProvider, point_provider_lab::PointProviderLab},
    },
    score::score::Score,
};
use proptest::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

/// A flat image: pixels, one dominant color, and a few others in small numbers.
pub type Flat = (u32, i64, Vec<(i64, u8)>);
pub fn flat() -> gen::S<Flat> {
    let n = gen::with_novel_int(prop_oneof![2 => 30_000i64..140_000, 1 => 60_000i64..70_000, 1 => 100_000i64..600_000].boxed(), 1_000, 2_000_000);
    (n, gen::argb(), prop::collection::vec((gen::argb(), 1u8..60), 0..6)).prop_map(|(n, c, v)| (n as u32, c, v)).boxed()
}
pub fn flat_pixels(f: &Flat) -> Vec<i64> {
    let mut p = vec![f.1; f.0 as usize];
    let mut at = f.0 as usize / 3;
    for (c, n) in &f.2 {
        for _ in 0..*n {
            p[at] = *c;
            at = (at + 997) % p.len();
        }
    }
    p
}
/// An image as runs of equal pixels.
pub type Img = Vec<(i64, u32)>;
pub fn pixels(i: &Img) -> Vec<i64> {
    i.iter().flat_map(|(c, n)| std::iter::repeat(*c).take(*n as usize)).collect()
}
fn run() -> gen::S<u32> {
    let base = prop_oneof![5 => Just(1i64), 3 => 1i64..6, 1 => 1i64..40].boxed();
    // Rarely, runs as long as a number the code mentions.
    let long = gen::with_novel_int(base.clone(), 1, 20_000);
    prop_oneof![15 => base, 1 => long].prop_map(|n| n as u32).boxed()
}
fn base_img(max: usize) -> gen::S<Img> {
    let free = prop::collection::vec((gen::argb(), run()), 0..max);
    // few colors, many runs
    let palette = (prop::collection::vec(gen::argb(), 1..7), prop::collection::vec((any::<prop::sample::Index>(), run()), 1..max)).prop_map(|(p, v)| v.into_iter().map(|(i, n)| (p[i.index(p.len())], n)).collect());
    // noise around a few colors
    let noisy = (prop::collection::vec(gen::argb(), 1..6), prop::collection::vec((any::<prop::sample::Index>(), -9i64..10, -9i64..10, -9i64..10, run()), 1..max)).prop_map(|(p, v)| {
        v.into_iter()
            .map(|(i, r, g, b, n)| {
                let c = refm::rgb(p[i.index(p.len())]);
                let f = |x: i64, d: i64| (x + d).clamp(0, 255);
                (refm::pack(f(c[0], r), f(c[1], g), f(c[2], b)), n)
            })
            .collect()
    });
    // neighbors of a border between two cells of 8 levels
    let cells = prop::collection::vec((0i64..32, 0i64..32, 0i64..32, 0u8..8, run()), 1..max).prop_map(|v| {
        v.into_iter()
            .map(|(r, g, b, k, n)| {
                let f = |x: i64, bit: u8| x * 8 + if k & bit != 0 { 7 } else { 0 };
                (refm::pack(f(r, 1), f(g, 2), f(b, 4)), n)
            })
            .collect()
    });
    let gray = prop::collection::vec((any::<u8>(), run()), 1..max).prop_map(|v| v.into_iter().map(|(g, n)| (gen::rgb_argb(g, g, g), n)).collect());
    let line = (gen::argb(), 0usize..3, prop::collection::vec((any::<u8>(), run()), 1..max)).prop_map(|(c, ch, v)| {
        v.into_iter()
            .map(|(x, n)| {
                let mut p = refm::rgb(c);
                p[ch] = x as i64;
                (refm::pack(p[0], p[1], p[2]), n)
            })
            .collect()
    });
    prop_oneof![3 => free, 3 => palette, 4 => noisy, 2 => cells, 1 => gray, 1 => line].boxed()
}
pub fn img(max: usize) -> gen::S<Img> {
    base_img(max)
}
pub fn img_alpha(max: usize) -> gen::S<Img> {
    (base_img(max), prop::collection::vec(prop_oneof![2 => Just(255i64), 1 => Just(254i64), 1 => 0i64..255], max..=max))
        .prop_map(|(i, a)| i.into_iter().enumerate().map(|(k, (c, n))| ((c & 0xffffff) | a[k] << 24, n)).collect())
        .boxed()
}
/// A large image: seed, pixels, different colors, kind (0 any colors, 1 around
/// a few centers, 2 a smooth ramp, 3 one dominant color).
pub type Bulk = (u64, u32, u32, u8);
pub fn bulk(pixels: i64, colors: i64) -> gen::S<Bulk> {
    let n = gen::with_novel_int(prop_oneof![2 => 100..=pixels / 10, 1 => 100..=pixels].boxed(), 100, pixels * 4);
    let k = gen::with_novel_int(prop_oneof![1 => 2i64..40, 2 => 20..=colors].boxed(), 2, colors * 2);
    (any::<u64>(), n, k, 0u8..4).prop_map(|(s, n, k, kind)| (s, n as u32, k as u32, kind)).boxed()
}
pub fn bulk_pixels(b: &Bulk) -> Vec<i64> {
    let mut x = b.0;
    let mut next = move || {
        x = x.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        (z ^ (z >> 31)) as i64 & 0x7fffffff
    };
    let colors: Vec<i64> = match b.3 {
        1 => {
            let centers: Vec<i64> = (0..4).map(|_| next() & 0xffffff).collect();
            (0..b.2)
                .map(|_| {
                    let c = refm::rgb(centers[next() as usize % 4]).map(|v| (v + next() % 25 - 12).clamp(0, 255));
                    refm::pack(c[0], c[1], c[2])
                })
                .collect()
        }
        2 => {
            let (from, to) = (refm::rgb(next() & 0xffffff), refm::rgb(next() & 0xffffff));
            (0..b.2 as i64)
                .map(|i| {
                    let c = [0, 1, 2].map(|k| from[k] + (to[k] - from[k]) * i / b.2 as i64);
                    refm::pack(c[0], c[1], c[2])
                })
                .collect()
        }
        _ => (0..b.2).map(|_| 0xff000000 | (next() & 0xffffff)).collect(),
    };
    (0..b.1)
        .map(|i| {
            if i < b.2 {
                return colors[i as usize];
            }
            let r = next();
            colors[if b.3 == 3 && r % 10 < 9 { 0 } else { next() as usize % colors.len() }]
        })
        .collect()
}
fn count_map(p: &[i64]) -> BTreeMap<i64, i64> {
    let mut m = BTreeMap::new();
    for x in p {
        *m.entry(*x).or_default() += 1;
    }
    m
}
fn sorted(m: &std::collections::HashMap<i64, i64>) -> BTreeMap<i64, i64> {
    m.iter().map(|(a, b)| (*a, *b)).collect()
}

/// An image and what follows it: the same with one pixel changed (alone, or
/// against another so that the sum stays), two pixels exchanged, one more or one
/// less, and perhaps another number of colors wanted.
type Edits = Vec<(u8, u32, i64, Option<i64>)>;
fn edits() -> gen::S<Edits> {
    prop::collection::vec((0u8..8, 0u32..10_000, gen::argb(), prop::option::of(wanted())), 1..4).boxed()
}
fn edited(p: &mut Vec<i64>, kind: u8, at: u32, c: i64) {
    let n = p.len();
    if n == 0 {
        p.push(c);
        return;
    }
    let i = at as usize % n;
    let j = (i + 1 + c as usize % n.max(2)) % n;
    match kind {
        0..=3 => p[i] = c,
        4 | 5 => {
            let by = 1i64 << (8 * (at % 3));
            let down = |x: i64| (x / by) & 255 > 0;
            let up = |x: i64| (x / by) & 255 < 255;
            if i != j && up(p[i]) && down(p[j]) {
                p[i] += by;
                p[j] -= by;
            } else {
                p[i] = c;
            }
        }
        6 => p.swap(i, j),
        _ if at % 2 == 0 => p.insert(i, c),
        _ => drop(p.remove(i)),
    }
}
/// Quantize all the images straight after one another, then judge each of them
/// by itself, with an unrelated image in between.
fn in_a_row<R: PartialEq + std::fmt::Debug>(
    i: &Img,
    m: i64,
    edits: &Edits,
    run: impl Fn(&Vec<i64>, i64) -> R,
    test: impl Fn(&Vec<i64>, i64) -> Outcome,
) -> Outcome {
    let mut all = vec![(pixels(i), m)];
    for (kind, at, c, w) in edits {
        let (mut p, m) = all[all.len() - 1].clone();
        edited(&mut p, *kind, *at, *c);
        all.push((p, w.unwrap_or(m)));
    }
    let first: Vec<R> = all.iter().map(|(p, m)| run(p, *m)).collect();
    let mut label = "";
    for ((p, m), got) in all.iter().zip(&first) {
        let _ = run(&vec![0xff336699, 0xff993366, 0xff669933], 2);
        let again = run(p, *m);
        ensure!(*got == again, "{p:x?} in {m} colors gives {got:x?} after a similar image, and {again:x?} after another");
        label = test(p, *m)?;
    }
    Ok(label)
}
type Both = (BTreeMap<i64, i64>, BTreeMap<i64, i64>);
fn both(r: QuantizerResult) -> Both {
    (sorted(&r.color_to_count), sorted(&r.input_pixel_to_cluster_pixel))
}

// ------------------------------------------------------------------ C29
pub const C29: Prop = Prop {
    id: "C29",
    rule: "non-trivial: the image has at least two different colors; classes tell images with translucent pixels",
    assumptions: &[],
    run: c29,
};
fn c29(ctx: &Ctx) {
    let test = |p: Vec<i64>, max: &i64, rot: &usize| -> Outcome {
        let mut want = count_map(&p);
        let distinct = want.len();
        want.retain(|c, _| (c >> 24) & 255 == 255);
        let r = QuantizerMap {}.quantize(&p, *max, None);
        ensure!(sorted(&r.color_to_count) == want, "histogram {:x?}, want {want:x?}", sorted(&r.color_to_count));
        let mut q = p.clone();
        if !q.is_empty() {
            let k = rot % q.len();
            q.rotate_left(k);
            q.reverse();
        }
        let r2 = QuantizerMap {}.quantize(&q, max + 1, Some(true));
        ensure!(sorted(&r2.color_to_count) == want, "the order of the pixels changes the histogram");
        Ok(if distinct < 2 { "" } else if distinct != want.len() { "translucent" } else { "opaque" })
    };
    ctx.search("opaque", ctx.n(60_000, 1_000_000), || (img(120), gen::int(1, 300), 0usize..200), |(i, m, r)| test(pixels(i), m, r));
    ctx.search("alpha", ctx.n(60_000, 1_000_000), || (img_alpha(80), gen::int(1, 300), 0usize..200), |(i, m, r)| test(pixels(i), m, r));
    // An image, then the same with one pixel changed or another count wanted.
    ctx.search("neighbours", ctx.n(20_000, 300_000), || (img_alpha(40), wanted(), edits()), |(i, m, e)| in_a_row(i, *m, e, |p, m| both(QuantizerMap {}.quantize(p, m, None)), |p, m| test(p.clone(), &m, &3)));
    // Populations beyond what narrow counters hold.
    ctx.search("huge", ctx.n(12, 60), || (gen::argb_alpha(), gen::argb(), 17u32..25, gen::int(1, 300)), |(a, b, e, m)| {
        // as many pixels of one color as fit in `e` bits, and a few more
        let n = (1usize << e) + 17;
        let mut p = vec![*a; n];
        p[n / 3] = *b;
        p.extend([*b, *a, *b]);
        test(p, m, &(n / 2))
    });
    ctx.search("bulk", ctx.n(160, 3_000), || (bulk(60_000, 4_000), gen::int(1, 300), 0usize..200), |(i, m, r)| test(bulk_pixels(i), m, r));
    // Images of as many colors as a photograph has.
    ctx.search("many-colors", ctx.n(40, 600), || (many(400_000), gen::int(1, 300), 0usize..200), |(i, m, r)| test(many_pixels(i), m, r));
}
/// Many different colors: the first, the odd step from each to the next, how
/// many there are, and how many of them occur twice.
pub type Many = (u32, u32, u32, u32);
pub fn many(max: i64) -> gen::S<Many> {
    let n = gen::with_novel_int(prop_oneof![1 => 1_000..=max / 10, 1 => max / 10..=max].boxed(), 1_000, max * 4);
    (0u32..1 << 24, 0u32..1 << 23, n, 0u32..500).prop_map(|(a, s, n, t)| (a, s * 2 + 1, n as u32, t)).boxed()
}
pub fn many_pixels(m: &Many) -> Vec<i64> {
    (0..m.2 + m.3).map(|i| 0xff000000 | (m.0 as i64 + m.1 as i64 * (i % m.2) as i64) & 0xffffff).collect()
}

// ------------------------------------------------------------------ C30
pub const C30: Prop = Prop {
    id: "C30",
    rule: "non-trivial: the opaque pixels occupy at least two cells of the 5-bit color cube; classes tell images with more cells than colors wanted",
    assumptions: &[
        "at least one color is wanted; the sum of pixels stays below 2^31",
        "the boxes are compared with the reference where no cut is within 1e-12 (relative) of a tie; every case is checked for the number of colors and for the mean",
    ],
    run: c30,
};
#[derive(Clone, Debug)]
struct Cell {
    at: [i64; 3],
    w: f64,
    m: [f64; 3],
    m2: f64,
}
fn cells_of(p: &[i64]) -> Vec<Cell> {
    let mut cells: BTreeMap<[i64; 3], Cell> = BTreeMap::new();
    for (c, n) in count_map(p) {
        if (c >> 24) & 255 != 255 {
            continue;
        }
        let rgb = refm::rgb(c);
        let at = rgb.map(|x| x / 8);
        let e = cells.entry(at).or_insert(Cell { at, w: 0.0, m: [0.0; 3], m2: 0.0 });
        e.w += n as f64;
        for k in 0..3 {
            e.m[k] += (rgb[k] * n) as f64;
            e.m2 += (rgb[k] * rgb[k] * n) as f64;
        }
    }
    cells.into_values().collect()
}
fn total(c: &[Cell]) -> (f64, [f64; 3], f64) {
    let mut t = (0.0, [0.0; 3], 0.0);
    for x in c {
        t.0 += x.w;
        for k in 0..3 {
            t.1[k] += x.m[k];
        }
        t.2 += x.m2;
    }
    t
}
fn sq(m: &[f64; 3]) -> f64 {
    m.iter().map(|x| x * x).sum()
}
fn spread(c: &[Cell]) -> f64 {
    let (w, m, m2) = total(c);
    m2 - sq(&m) / w
}
/// Wu's greedy splitting on the occupied cells: the box with the largest
/// squared error is cut where the errors of the halves sum to the least.
/// None when an alternative is too close to call.
fn ref_wu(cells: Vec<Cell>, max: usize) -> Option<Vec<i64>> {
    if cells.is_empty() {
        return Some(vec![]);
    }
    let mut boxes = vec![cells];
    // Far beyond what rounding does to these sums, whatever their order.
    let near = |a: f64, b: f64, scale: f64| (a - b).abs() <= 1e-12 * scale.max(a.abs()).max(b.abs()) + 1e-6;
    let mut first = true;
    while boxes.len() < max {
        // The first cut is made in any case.
        let mut order: Vec<usize> = (0..boxes.len()).filter(|i| boxes[*i].len() > 1).collect();
        if order.is_empty() {
            break;
        }
        let s: Vec<f64> = boxes.iter().map(|b| spread(b)).collect();
        order.sort_by(|a, b| s[*b].partial_cmp(&s[*a]).unwrap());
        if !first && order.len() > 1 && near(s[order[0]], s[order[1]], total(&boxes[order[0]]).2.max(total(&boxes[order[1]]).2)) {
            return None;
        }
        first = false;
        let b = boxes[order[0]].clone();
        let (w, m, _) = total(&b);
        let mut best: Vec<(f64, usize, i64, [i64; 3])> = Vec::new();
        for k in 0..3 {
            let lo = b.iter().map(|c| c.at[k]).min().unwrap();
            let hi = b.iter().map(|c| c.at[k]).max().unwrap();
            for cut in lo + 1..=hi {
                let part: Vec<Cell> = b.iter().filter(|c| c.at[k] < cut).cloned().collect();
                let (w1, m1, _) = total(&part);
                let m2 = [0, 1, 2].map(|i| m[i] - m1[i]);
                // cuts with the same halves are the same cut
                if part.len() < b.len() {
                    best.push((sq(&m1) / w1 + sq(&m2) / (w - w1), k, cut, [part.len() as i64, w1 as i64, m1[0] as i64]));
                }
            }
        }
        best.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
        let chosen = best[0];
        let half = |x: &(f64, usize, i64, [i64; 3])| b.iter().map(|c| c.at[x.1] < x.2).collect::<Vec<_>>();
        let mine = half(&chosen);
        for other in &best[1..] {
            if !near(other.0, chosen.0, 0.0) {
                break;
            }
            let h = half(other);
            if h != mine && h.iter().zip(&mine).any(|(a, b)| a == b) {
                return None;
            }
        }
        let (x, y): (Vec<Cell>, Vec<Cell>) = b.iter().cloned().partition(|c| c.at[chosen.1] < chosen.2);
        boxes[order[0]] = x;
        boxes.push(y);
    }
    let mut out = Vec::new();
    for b in &boxes {
        let (w, m, _) = total(b);
        let c = m.map(|x| x / w);
        let r = c.map(|x| (x + 0.5).floor() as i64);
        out.push(refm::pack(r[0], r[1], r[2]));
    }
    out.sort();
    Some(out)
}
fn check_wu(p: &Vec<i64>, max: i64) -> Outcome {
    let cells = cells_of(p);
    let n = cells.len();
    let r = QuantizerWu::new().quantize(p, max, None);
    let mut got: Vec<i64> = r.color_to_count.keys().copied().collect();
    got.sort();
    let want_n = n.min(max as usize);
    ensure!(got.len() == want_n, "{} colors, want {want_n} ({n} cells, {max} wanted): {got:x?}", got.len());
    for c in &got {
        ensure!((0xff000000..=0xffffffff).contains(c), "{c:#x} is not an opaque color");
    }
    if want_n == n {
        // Every cell is a box of its own.
        let mut each: Vec<i64> = cells.iter().map(|c| c.m.map(|x| (x / c.w + 0.5).floor() as i64)).map(|r| refm::pack(r[0], r[1], r[2])).collect();
        each.sort();
        ensure!(got == each, "{got:x?}, want the mean of each cell {each:x?}");
        return Ok(if n < 2 { "" } else { "all-cells" });
    }
    match ref_wu(cells, max as usize) {
        Some(want) => {
            ensure!(got == want, "{got:x?}, want {want:x?}");
            Ok("cut")
        }
        None => Ok("near-tie"),
    }
}
fn wanted() -> gen::S<i64> {
    gen::with_novel_int(prop_oneof![5 => 1i64..9, 1 => 1i64..24].boxed(), 1, 256)
}
fn c30(ctx: &Ctx) {
    ctx.pinned("corners", vec![(vec![], 4i64), (vec![(0xff000000i64, 1u32)], 1), (vec![(0x00ffffff, 3)], 4), (vec![(0xffffffff, 2), (0xff000000, 1)], 16)], |(i, m): &(Img, i64)| {
        check_wu(&pixels(i), *m)
    });
    // Each image of a few million pixels exceeds what the square of a 32-bit
    // sum can hold.
    ctx.pinned(
        "large",
        vec![
            (vec![(0xffffffffi64, 9_000_000u32), (0xfffefefe, 100), (0xff0000ff, 3_000_000), (0xffff0000, 5)], 4i64),
            (vec![(0xffffffff, 8_000_000), (0xff808080, 4_000_000), (0xff00ff00, 1_000)], 2),
        ],
        |(i, m): &(Img, i64)| check_wu(&pixels(i), *m),
    );
    ctx.search("images", ctx.n(4_000, 60_000), || (img(60), wanted()), |(i, m)| check_wu(&pixels(i), *m));
    // An image, then the same with one pixel changed or another count wanted.
    ctx.search("neighbours", ctx.n(600, 10_000), || (img(30), wanted(), edits()), |(i, m, e)| in_a_row(i, *m, e, |p, m| both(QuantizerWu::new().quantize(p, m, None)), check_wu));
    ctx.search("translucent", ctx.n(600, 10_000), || (img_alpha(30), wanted()), |(i, m)| check_wu(&pixels(i), *m));
    ctx.search("bulk", ctx.n(240, 4_000), || (bulk(60_000, 3_000), gen::with_novel_int(prop_oneof![2 => 2i64..40, 1 => 40i64..257].boxed(), 1, 256)), |(b, m)| check_wu(&bulk_pixels(b), *m));
    ctx.search("flat", ctx.n(40, 800), || (flat(), wanted()), |(f, m)| check_wu(&flat_pixels(f), *m));
    ctx.search("many-colors", ctx.n(24, 300), || (many(60_000), 1i64..9), |(f, m)| check_wu(&many_pixels(f), *m));
    // Few colors, some of them neighbors, with populations of very different
    // sizes.
    ctx.search("skewed", ctx.n(60, 1_500), || (prop::collection::vec((gen::argb(), 0u32..22, prop::option::of((0usize..3, -40i64..41))), 2..9), 1i64..7), |(v, m)| {
        let mut p = Vec::new();
        let mut last = 0;
        for (c, e, near) in v {
            last = match near {
                Some((k, d)) if last != 0 => {
                    let mut x = refm::rgb(last);
                    x[*k] = (x[*k] + d).clamp(0, 255);
                    refm::pack(x[0], x[1], x[2])
                }
                _ => *c,
            };
            p.extend(std::iter::repeat(last).take((1usize << e) + (last as usize & 7)));
        }
        check_wu(&p, *m)
    });
    // Dominant colors with a few pixels of neighboring colors each.
    ctx.search("satellites", ctx.n(120, 3_000), || (prop::collection::vec((gen::argb(), 14u32..22, prop::collection::vec((0usize..3, -60i64..61, 1u32..100), 1..4)), 2..5), 2i64..9), |(v, m)| {
        let mut p = Vec::new();
        for (c, e, near) in v {
            for (k, d, n) in near {
                let mut x = refm::rgb(*c);
                x[*k] = (x[*k] + d).clamp(0, 255);
                p.extend(std::iter::repeat(refm::pack(x[0], x[1], x[2])).take(*n as usize));
            }
            p.extend(std::iter::repeat(*c).take((1usize << e) + (*c as usize & 1023)));
        }
        check_wu(&p, *m)
    });
    // The same object may be used again, and again.
    ctx.search("reuse-long", ctx.n(24, 400), || (prop::collection::vec((img(12), wanted()), 3..14),), |(v,)| {
        let mut q = QuantizerWu::new();
        for (k, (i, m)) in v.iter().enumerate() {
            let p = pixels(i);
            let x = q.quantize(&p, *m, None);
            let y = QuantizerWu::new().quantize(&p, *m, None);
            ensure!(sorted(&x.color_to_count) == sorted(&y.color_to_count), "image {k} on one object gives {:x?}, a new object {:x?}", sorted(&x.color_to_count), sorted(&y.color_to_count));
        }
        Ok("reuse")
    });
    ctx.search("reuse", ctx.n(400, 6_000), || (img(30), img(30), wanted(), wanted()), |(a, b, m, n)| {
        let mut q = QuantizerWu::new();
        let _ = q.quantize(&pixels(a), *m, None);
        let x = q.quantize(&pixels(b), *n, None);
        let y = QuantizerWu::new().quantize(&pixels(b), *n, None);
        ensure!(sorted(&x.color_to_count) == sorted(&y.color_to_count), "a second image on one object gives {:x?}, a new object {:x?}", sorted(&x.color_to_count), sorted(&y.color_to_count));
        Ok(if b.len() > 1 { "reuse" } else { "" })
    });
}

// ------------------------------------------------------------------ C31
pub const C31: Prop = Prop {
    id: "C31",
    rule: "non-trivial: the image has more different colors than clusters are wanted, so that pixels have to share a cluster",
    assumptions: &["at least one color and one iteration are wanted"],
    run: c31,
};
/// What holds for every result that maps pixels to clusters.
fn check_accounting(p: &[i64], max: i64, r: &QuantizerResult) -> Result<(), String> {
    let counts = count_map(p);
    let colors = sorted(&r.color_to_count);
    let map = sorted(&r.input_pixel_to_cluster_pixel);
    ensure!(colors.len() as i64 <= max.min(counts.len() as i64), "{} clusters of {} colors, {max} wanted", colors.len(), counts.len());
    let sum: i64 = colors.values().sum();
    ensure!(sum == p.len() as i64, "{} pixels, but the populations {colors:x?} sum to {sum}", p.len());
    ensure!(map.keys().eq(counts.keys()), "the pixel map covers {} of {} colors", map.len(), counts.len());
    let mut per: BTreeMap<i64, i64> = BTreeMap::new();
    for (c, k) in &map {
        *per.entry(*k).or_default() += counts[c];
    }
    ensure!(per == colors, "the pixel map adds up to {per:x?}, the populations are {colors:x?}");
    // Every color is the mean of its pixels.
    for k in colors.keys() {
        ensure!((0xff000000..=0xffffffff).contains(k), "cluster {k:#x} is not an opaque color");
        let mut m = [0.0; 3];
        let mut w = 0.0;
        for (c, _) in map.iter().filter(|x| x.1 == k) {
            let l = refm::lab(*c);
            let n = counts[c] as f64;
            w += n;
            for i in 0..3 {
                m[i] += l[i] * n;
            }
        }
        let want = refm::rgb_of_lab(m[0] / w, m[1] / w, m[2] / w).map(|x| x.clamp(0.0, 255.0));
        let got = refm::rgb(*k);
        for i in 0..3 {
            ensure!((got[i] as f64 - want[i]).abs() <= 1.0, "cluster {k:#x} is not the mean {want:?} of its pixels");
        }
    }
    Ok(())
}
/// Sum of squared distances of the pixels from the mean of their cluster.
fn error_of(p: &[i64], r: &QuantizerResult) -> f64 {
    let mut groups: BTreeMap<i64, (f64, [f64; 3], f64)> = BTreeMap::new();
    for x in p {
        let l = refm::lab(*x);
        let g = groups.entry(r.input_pixel_to_cluster_pixel[x]).or_default();
        g.0 += 1.0;
        for i in 0..3 {
            g.1[i] += l[i];
            g.2 += l[i] * l[i];
        }
    }
    groups.values().map(|(w, m, s)| s - sq(m) / w).sum()
}
fn lab(argb: i64) -> Vec<f64> {
    PointProviderLab::new().from_int(argb)
}
/// K-means from given starts, one for each cluster: the color of each pixel's
/// cluster. Every pixel begins in the cluster of its place in the order of
/// first occurrence and moves to the nearest center. None when the answer may
/// depend on the order of operations (centers that are about as near), or when
/// a pixel may be left where it is because its center is near while others are
/// far from that center: the code compares with the sorted distances of the
/// center, so which candidates it drops depends on their order.
fn ref_kmeans(p: &[i64], max: i64, start: &[i64], iterations: i64) -> Option<BTreeMap<i64, [f64; 3]>> {
    let counts = count_map(p);
    let mut seen = BTreeSet::new();
    let order: Vec<i64> = p.iter().filter(|c| seen.insert(**c)).copied().collect();
    let k = (max as usize).min(order.len());
    let points: Vec<[f64; 3]> = order.iter().map(|c| refm::lab(*c)).collect();
    let mut centers: Vec<[f64; 3]> = start[..k].iter().map(|c| refm::lab(*c)).collect();
    let mut of: Vec<usize> = (0..order.len()).map(|i| i % k).collect();
    let d = |a: &[f64; 3], b: &[f64; 3]| (0..3).map(|i| (a[i] - b[i]) * (a[i] - b[i])).sum::<f64>();
    let mut widest = 0f64;
    for _ in 0..iterations {
        for a in &centers {
            for b in &centers {
                widest = widest.max(d(a, b));
            }
        }
        for (i, x) in points.iter().enumerate() {
            let own = d(x, &centers[of[i]]);
            let mut by: Vec<(f64, usize)> = centers.iter().enumerate().map(|(j, c)| (d(x, c), j)).collect();
            by.sort_by(|a, b| a.0.total_cmp(&b.0));
            if by[0].1 != of[i] || k > 1 {
                let second = if k > 1 { by[1].0 } else { f64::INFINITY };
                if second - by[0].0 <= 1e-6 * (1.0 + second) {
                    return None;
                }
            }
            // Two clusters leave nothing to confuse.
            if by[0].1 != of[i] && k > 2 && 4.0 * own <= widest * (1.0 + 1e-6) {
                return None;
            }
            of[i] = by[0].1;
        }
        let mut w = vec![0.0; k];
        let mut m = vec![[0.0; 3]; k];
        for (i, x) in points.iter().enumerate() {
            let n = counts[&order[i]] as f64;
            w[of[i]] += n;
            for c in 0..3 {
                m[of[i]][c] += x[c] * n;
            }
        }
        for j in 0..k {
            centers[j] = if w[j] == 0.0 { [0.0; 3] } else { m[j].map(|x| x / w[j]) };
        }
    }
    Some(order.iter().zip(&of).map(|(c, j)| (*c, refm::rgb_of_lab(centers[*j][0], centers[*j][1], centers[*j][2]).map(|x| x.clamp(0.0, 255.0)))).collect())
}
fn check_kmeans(p: &[i64], max: i64, start: &Vec<i64>, iterations: Option<i64>) -> Outcome {
    let distinct = count_map(p).len();
    if distinct == 0 || (start.len() as i64) < max.min(distinct as i64) {
        return Ok("");
    }
    let Some(want) = ref_kmeans(p, max, start, iterations.unwrap_or(5)) else {
        return Ok(""); // no single answer
    };
    let r = QuantizerWsmeans::quantize(&p.to_vec(), max, Some(start), None, iterations, Some(true));
    for (c, w) in &want {
        let got = r.input_pixel_to_cluster_pixel.get(c).ok_or(format!("{c:#x} has no cluster"))?;
        let g = refm::rgb(*got);
        ensure!((0..3).all(|i| (g[i] as f64 - w[i]).abs() <= 1.0), "{c:#x} is in the cluster {got:#x}, want {w:?}");
    }
    Ok(if distinct as i64 > max && max > 1 { "assigned" } else { "" })
}
fn c31(ctx: &Ctx) {
    ctx.search(
        "assignment",
        ctx.n(30_000, 600_000),
        || (img(40), prop_oneof![3 => Just(2i64), 2 => 2i64..7, 1 => gen::with_novel_int((1i64..12).boxed(), 1, 64)], prop::collection::vec(gen::argb(), 12..13), prop::option::of(prop_oneof![3 => Just(1i64), 2 => 1i64..4, 1 => 1i64..12]), 0u8..3),
        |(i, max, start, iters, mine)| {
            let p = pixels(i);
            let mut start: Vec<i64> = if *mine > 0 { start.iter().enumerate().map(|(k, c)| if p.is_empty() { *c } else { p[(*c as usize + k) % p.len()] }).collect() } else { start.clone() };
            if *mine > 1 {
                start.sort();
                start.dedup();
            }
            check_kmeans(&p, *max, &start, *iters)
        },
    );
    ctx.search("assignment-bulk", ctx.n(600, 10_000), || (bulk(4_000, 300), prop_oneof![2 => Just(2i64), 2 => 3i64..9, 1 => 9i64..40], prop::option::of(prop_oneof![2 => Just(1i64), 1 => 1i64..30])), |(b, m, it)| {
        let p = bulk_pixels(b);
        let start: Vec<i64> = p.iter().take(*m as usize).copied().collect();
        check_kmeans(&p, *m, &start, *it)
    });
    ctx.search(
        "accounting",
        ctx.n(60_000, 1_000_000),
        || (img(50), gen::with_novel_int((1i64..12).boxed(), 1, 256), prop::collection::vec(gen::argb(), 0..10), prop::option::of(gen::with_novel_int((1i64..9).boxed(), 1, 40)), any::<bool>()),
        |(i, max, start, iters, mine)| {
            let p = pixels(i);
            let start: Vec<i64> = if *mine { start.iter().enumerate().map(|(k, c)| if p.is_empty() { *c } else { p[(*c as usize + k) % p.len()] }).collect() } else { start.clone() };
            let run = |map: bool| QuantizerWsmeans::quantize(&p, *max, Some(&start), None, *iters, Some(map));
            let r = run(true);
            check_accounting(&p, *max, &r)?;
            let s = run(false);
            ensure!(sorted(&s.color_to_count) == sorted(&r.color_to_count), "asking for the pixel map changes the clusters: {:x?} and {:x?}", sorted(&r.color_to_count), sorted(&s.color_to_count));
            ensure!(s.input_pixel_to_cluster_pixel.is_empty(), "a pixel map that was not asked for");
            Ok(if count_map(&p).len() as i64 > *max { "shared" } else { "" })
        },
    );
    // An image, then the same with one pixel changed or another count wanted.
    ctx.search("neighbours", ctx.n(6_000, 100_000), || (img(30), wanted(), edits(), prop::option::of(1i64..6)), |(i, m, e, iters)| {
        in_a_row(i, *m, e, |p, m| both(QuantizerWsmeans::quantize(p, m, None, None, *iters, Some(true))), |p, m| {
            check_accounting(p, m, &QuantizerWsmeans::quantize(p, m, None, None, *iters, Some(true)))?;
            let start: Vec<i64> = p.iter().take(m as usize).copied().collect();
            check_kmeans(p, m, &start, *iters)
        })
    });
    ctx.search("defaults", ctx.n(20_000, 300_000), || (img(50), gen::with_novel_int((1i64..12).boxed(), 1, 256)), |(i, max)| {
        let p = pixels(i);
        let r = QuantizerWsmeans::quantize(&p, *max, None, None, None, Some(true));
        check_accounting(&p, *max, &r)?;
        let s = QuantizerWsmeans::quantize(&p, *max, Some(&vec![]), Some(&PointProviderLab::new()), Some(5), Some(true));
        ensure!(sorted(&s.color_to_count) == sorted(&r.color_to_count) && sorted(&s.input_pixel_to_cluster_pixel) == sorted(&r.input_pixel_to_cluster_pixel), "the defaults are not no clusters, Lab and 5 iterations");
        let t = QuantizerWsmeans::quantize(&p, *max, None, None, None, None);
        ensure!(t.input_pixel_to_cluster_pixel.is_empty() && sorted(&t.color_to_count) == sorted(&r.color_to_count), "the pixel map is not off by default");
        Ok(if count_map(&p).len() as i64 > *max { "shared" } else { "" })
    });
    ctx.search("bulk", ctx.n(400, 6_000), || (bulk(20_000, 800), gen::with_novel_int(prop_oneof![2 => 2i64..40, 1 => 40i64..257].boxed(), 1, 256), prop::option::of(1i64..9)), |(b, m, it)| {
        let p = bulk_pixels(b);
        let start: Vec<i64> = p.iter().take(*m as usize).copied().collect();
        let r = QuantizerWsmeans::quantize(&p, *m, Some(&start), None, *it, Some(true));
        check_accounting(&p, *m, &r)?;
        let d = QuantizerWsmeans::quantize(&p, *m, None, None, *it, Some(true));
        check_accounting(&p, *m, &d)?;
        Ok(if count_map(&p).len() as i64 > *m { "shared" } else { "" })
    });
    // More pixels of one color than narrow counters hold.
    ctx.search("flat", ctx.n(16, 400), || (flat(), 1i64..8, prop::option::of(1i64..9)), |(f, m, it)| {
        let p = flat_pixels(f);
        let r = QuantizerWsmeans::quantize(&p, *m, None, None, *it, Some(true));
        check_accounting(&p, *m, &r)?;
        Ok(if count_map(&p).len() as i64 > *m { "shared" } else { "" })
    });
    // More iterations never fit worse (up to the rounding of merged clusters).
    ctx.search("improving", ctx.n(10_000, 200_000), || (img(60), 1i64..10, 1i64..6, 1i64..6), |(i, max, a, b)| {
        let p = pixels(i);
        let e = |n: i64| error_of(&p, &QuantizerWsmeans::quantize(&p, *max, None, None, Some(n), Some(true)));
        let (x, y) = (e(*a), e(a + b));
        ensure!(y <= x * 1.0001 + 0.6 * p.len() as f64, "{a} iterations leave an error of {x}, {} leave {y}", a + b);
        Ok(if count_map(&p).len() as i64 > *max { "shared" } else { "" })
    });
    // The image twice: the same clusters, twice the populations.
    ctx.search("twice", ctx.n(10_000, 200_000), || (img(50), 1i64..10, prop::collection::vec(gen::argb(), 0..6)), |(i, max, start)| {
        let p = pixels(i);
        let q: Vec<i64> = p.iter().chain(&p).copied().collect();
        let r = QuantizerWsmeans::quantize(&p, *max, Some(start), None, None, Some(true));
        let s = QuantizerWsmeans::quantize(&q, *max, Some(start), None, None, Some(true));
        let twice: BTreeMap<i64, i64> = r.color_to_count.iter().map(|(c, n)| (*c, 2 * n)).collect();
        ensure!(sorted(&s.color_to_count) == twice, "the image twice gives {:x?}, want {twice:x?}", sorted(&s.color_to_count));
        ensure!(sorted(&s.input_pixel_to_cluster_pixel) == sorted(&r.input_pixel_to_cluster_pixel), "the image twice maps pixels differently");
        Ok(if count_map(&p).len() as i64 > *max { "shared" } else { "" })
    });
    ctx.search("distance", ctx.n(100_000, 1_000_000), || (gen::argb(), gen::argb()), |(a, b)| {
        let pp = PointProviderLab::new();
        let (x, y) = (lab(*a), lab(*b));
        let (u, v) = (refm::lab(*a), refm::lab(*b));
        let want: f64 = (0..3).map(|i| (u[i] - v[i]) * (u[i] - v[i])).sum();
        let got = pp.distance(&x, &y);
        ensure!(refm::close(got, want, 1e-6, 1e-6), "distance of {a:#x} and {b:#x} is {got}, want {want}");
        ensure!(pp.to_int(&x) == *a, "{a:#x} becomes {:#x} in Lab", pp.to_int(&x));
        Ok(if a == b { "" } else { "distance" })
    });
}

// ------------------------------------------------------------------ C32
pub const C32: Prop = Prop {
    id: "C32",
    rule: "non-trivial: the image has more different colors than are wanted",
    assumptions: &["images are opaque; at least one color is wanted"],
    run: c32,
};
fn celebi(p: &Vec<i64>, max: i64, map: Option<bool>) -> QuantizerResult {
    QuantizerCelebi {}.quantize(p, max, map)
}
fn check_celebi(p: &Vec<i64>, max: i64) -> Outcome {
    let r = celebi(p, max, Some(true));
    check_accounting(p, max, &r)?;
    for k in 0..2 {
        let s = celebi(p, max, Some(k == 0));
        ensure!(sorted(&s.color_to_count) == sorted(&r.color_to_count), "the same image gives {:x?} and {:x?}", sorted(&r.color_to_count), sorted(&s.color_to_count));
        if k == 0 {
            ensure!(sorted(&s.input_pixel_to_cluster_pixel) == sorted(&r.input_pixel_to_cluster_pixel), "the same image maps pixels differently");
        } else {
            ensure!(s.input_pixel_to_cluster_pixel.is_empty(), "a pixel map that was not asked for");
        }
    }
    let distinct = count_map(p).len();
    if distinct == 1 {
        ensure!(r.color_to_count.contains_key(&p[0]), "one color {:#x} becomes {:x?}", p[0], sorted(&r.color_to_count));
    }
    Ok(if distinct as i64 > max { "shared" } else { "" })
}
fn c32(ctx: &Ctx) {
    ctx.pinned("corners", vec![(vec![], 4i64), (vec![(0xff000000i64, 1u32)], 1), (vec![(0xffffffff, 7)], 128), (vec![(0xffff0000, 1), (0xff00ff00, 2), (0xff0000ff, 3)], 16)], |(i, m): &(Img, i64)| {
        check_celebi(&pixels(i), *m)
    });
    ctx.search("images", ctx.n(1_500, 25_000), || (img(60), wanted()), |(i, m)| check_celebi(&pixels(i), *m));
    ctx.search("bulk", ctx.n(80, 1_500), || (bulk(20_000, 800), gen::with_novel_int(prop_oneof![2 => 2i64..40, 1 => 40i64..257].boxed(), 1, 256)), |(b, m)| check_celebi(&bulk_pixels(b), *m));
    // Wu's colors, in ascending order, seed the refinement in Lab.
    let composed = |p: Vec<i64>, m: &i64| -> Outcome {
        let mut start: Vec<i64> = QuantizerWu::new().quantize(&p, *m, None).color_to_count.keys().copied().collect();
        start.sort();
        let want = QuantizerWsmeans::quantize(&p, *m, Some(&start), None, None, Some(true));
        let got = celebi(&p, *m, Some(true));
        ensure!(sorted(&got.color_to_count) == sorted(&want.color_to_count), "{:x?}, but refining the colors of Wu gives {:x?}", sorted(&got.color_to_count), sorted(&want.color_to_count));
        ensure!(sorted(&got.input_pixel_to_cluster_pixel) == sorted(&want.input_pixel_to_cluster_pixel), "pixels are mapped differently from refining the colors of Wu");
        Ok(if count_map(&p).len() as i64 > *m { "shared" } else { "" })
    };
    // An image, then the same with one pixel changed or another count wanted.
    ctx.search("neighbours", ctx.n(300, 6_000), || (img(30), wanted(), edits()), |(i, m, e)| {
        in_a_row(i, *m, e, |p, m| both(celebi(p, m, Some(true))), |p, m| {
            composed(p.clone(), &m)?;
            check_celebi(p, m)
        })
    });
    ctx.search("composition", ctx.n(600, 10_000), || (img(60), wanted()), |(i, m)| composed(pixels(i), m));
    ctx.search("composition-bulk", ctx.n(60, 1_000), || (bulk(8_000, 1_500), gen::with_novel_int(prop_oneof![1 => 2i64..60, 2 => 60i64..257].boxed(), 1, 256)), |(b, m)| composed(bulk_pixels(b), m));
    // Images of a camera's size, in few hundred colors.
    ctx.search("composition-large", ctx.n(30, 600), || (any::<u64>(), gen::with_novel_int((40_000i64..300_000).boxed(), 10_000, 1_000_000), 40u32..500, 0u8..4, 2i64..40), |(s, n, k, kind, m)| composed(bulk_pixels(&(*s, *n as u32, *k, *kind)), m));
    ctx.search("flat", ctx.n(40, 800), || (flat(), wanted()), |(f, m)| {
        let p = flat_pixels(f);
        check_celebi(&p, *m)?;
        composed(p, m)
    });
    ctx.search("twice", ctx.n(500, 8_000), || (img(40), wanted()), |(i, m)| {
        let p = pixels(i);
        let q: Vec<i64> = p.iter().chain(&p).copied().collect();
        let r = celebi(&p, *m, None);
        let s = celebi(&q, *m, None);
        let twice: BTreeMap<i64, i64> = r.color_to_count.iter().map(|(c, n)| (*c, 2 * n)).collect();
        ensure!(sorted(&s.color_to_count) == twice, "the image twice gives {:x?}, want {twice:x?}", sorted(&s.color_to_count));
        Ok(if count_map(&p).len() as i64 > *m { "shared" } else { "" })
    });
}

// ------------------------------------------------------------------ C33
pub const C33: Prop = Prop {
    id: "C33",
    rule: "non-trivial: the image gives at least one seed color that is not the fallback",
    assumptions: &["images are opaque; rendered text contrast may fall short of the requested ratio by 2.5%"],
    run: c33,
};
fn c33(ctx: &Ctx) {
    ctx.search(
        "image-to-theme",
        ctx.n(1_500, 25_000),
        || (img(60), wanted(), prop::option::of(1i64..6), prop::sample::select(vec![0u8, 1, 2, 3, 4, 5, 6, 7, 8]), any::<bool>(), gen::level()),
        |(i, m, desired, v, dark, level)| theme(pixels(i), *m, *desired, *v, *dark, *level),
    );
    ctx.search("neighbours", ctx.n(300, 6_000), || (img(30), wanted(), edits(), prop::option::of(1i64..6), 0u8..9, any::<bool>(), gen::level()), |(i, m, e, desired, v, dark, level)| {
        in_a_row(i, *m, e, |p, m| Score::score(&celebi(p, m, None).color_to_count, *desired, None, None), |p, m| {
            check_accounting(p, m, &celebi(p, m, Some(true)))?;
            theme(p.clone(), m, *desired, *v, *dark, *level)
        })
    });
    ctx.search("flat", ctx.n(30, 500), || (flat(), wanted(), prop::option::of(1i64..6), 0u8..9, any::<bool>()), |(f, m, desired, v, dark)| theme(flat_pixels(f), *m, *desired, *v, *dark, 0.0));
    ctx.search("bulk", ctx.n(60, 1_000), || (bulk(20_000, 800), 2i64..129, prop::option::of(1i64..6), 0u8..9, any::<bool>()), |(b, m, desired, v, dark)| theme(bulk_pixels(b), *m, *desired, *v, *dark, 0.0));
}
fn theme(p: Vec<i64>, m: i64, desired: Option<i64>, v: u8, dark: bool, level: f64) -> Outcome {
    let go = || {
        let r = celebi(&p, m, None);
        let seeds = Score::score(&r.color_to_count, desired, None, None);
        (r, seeds)
    };
    let (r, seeds) = go();
    let (_, again) = go();
    ensure!(seeds == again, "the same image gives seeds {seeds:x?} and {again:x?}");
    ensure!(!seeds.is_empty() && seeds.len() as i64 <= desired.unwrap_or(4), "{} seeds, {desired:?} wanted", seeds.len());
    let fell = seeds == [0xff4285f4] && !r.color_to_count.contains_key(&0xff4285f4);
    for s in &seeds {
        ensure!(fell || r.color_to_count.contains_key(s), "seed {s:#x} is not a color of the image {:x?}", sorted(&r.color_to_count));
    }
    let s = schemes::scheme(v, seeds[0], dark, level);
    let t = schemes::scheme(v, again[0], dark, level);
    let mut colors = BTreeSet::new();
    for role in crate::roles::ROLES {
        let c = (role.getter)(&s);
        ensure!((0xff000000..=0xffffffff).contains(&c), "{} of the theme of {:#x} is {c:#x}", role.name, seeds[0]);
        ensure!((role.getter)(&t) == c, "{} of the theme of {:#x} is {c:#x}, and another time {:#x}", role.name, seeds[0], (role.getter)(&t));
        colors.insert(c);
    }
    let text = contrast(refm::tone(s.get_on_surface()), refm::tone(s.get_surface()));
    let want = super::dynamic::curve_at(&[4.5, 7.0, 11.0, 21.0], level).min(15.0);
    ensure!(text >= 0.97 * want, "text contrast {text} in the theme of {:#x}", seeds[0]);
    Ok(if fell { "" } else { "theme" })
}
