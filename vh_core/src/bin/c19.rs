//! C19: Rips barcodes are invariant under relabelling and obey the standard identities.
use phlite::fields::*;
use vcore::field::TField;
use vcore::rips::{self, fbits, Bars};
use vcore::ripslib::*;
use vcore::{ensure, Ctx, Rng};

fn map_bars(b: &Bars, f: impl Fn(f64) -> f64) -> Bars {
    let g = |x: u64| fbits(f(f64::from_bits(x)));
    let mut v: Bars = b
        .iter()
        .map(|(d, x, y)| (*d, g(*x), y.map(g)))
        .filter(|(_, x, y)| *y != Some(*x))
        .collect();
    v.sort();
    v
}

fn case<CF: TField>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let (n, md) = match rng.below(10) {
        0..=6 => (rng.range(1, 7), rng.range(0, 3)),
        7 | 8 => (rng.range(7, 11), rng.range(0, 2)),
        _ => (rng.range(10, 30), rng.below(2)),
    };
    let d = rips::matrix(rng, n);
    let r = if rng.chance(1, 2) { Route::CoboundaryClearing } else { *rng.pick(&ROUTES) };
    ctx.sig(&format!("{}{md}{d:?}{r:?}", CF::NAME));
    ctx.describe(|| format!("{} {r:?} max_dim={md} {d:?}", CF::NAME));
    let base = bars::<CF>(&d, md, r);
    ctx.nontrivial = base.len() > 1;
    ctx.max("most_points", n as u64);
    let same = |got: &Bars, want: &Bars, what: &str| {
        ensure!(got == want, "{r:?} up to dimension {md}, {what}: bars {}; expected {}", show(got), show(want));
    };

    // permuted points
    let p = rng.perm(n);
    let e: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| d[p[i]][p[j]]).collect()).collect();
    same(&bars::<CF>(&e, md, r), &base, &format!("points permuted by {p:?}"));
    ctx.add("permutations", 1);

    // rescaled
    let c = *rng.pick(&[2.0, 0.5, 3.0, 0.1, 1e-3, 1e9, 0.7]);
    let e: Vec<Vec<f64>> = d.iter().map(|x| x.iter().map(|y| y * c).collect()).collect();
    same(&bars::<CF>(&e, md, r), &map_bars(&base, |x| x * c), &format!("rescaled by {c}"));
    ctx.add("rescalings", 1);

    // a duplicate point adds zero-length bars only
    if n <= 20 {
        let k = rng.below(n);
        let mut e = d.clone();
        for (i, row) in e.iter_mut().enumerate() {
            let x = d[i][k];
            row.push(x);
        }
        let mut last = e[k].clone();
        last[n] = 0.0;
        last[k] = 0.0;
        e.push(last);
        // symmetric, zero on the diagonal and between the copies
        same(&bars::<CF>(&e, md, r), &base, &format!("point {k} duplicated"));
        ctx.add("duplications", 1);
    }

    // more dimensions change nothing below
    if let (Some(top), true) = (r.top(md), n <= 12 && md < 3) {
        let more = bars::<CF>(&d, md + 1 + rng.below(2), r);
        let cut: Bars = more.into_iter().filter(|b| b.0 <= top).collect();
        same(&cut, &base, "with a larger maximum dimension, lower degrees");
        ctx.add("raised_dimensions", 1);
    }

    // degree zero: minimum spanning tree
    if r.top(md).is_some() {
        let mut edges: Vec<(f64, usize, usize)> = (0..n).flat_map(|i| (0..i).map(move |j| (i, j))).map(|(i, j)| (d[i][j], i, j)).collect();
        edges.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        let mut root: Vec<usize> = (0..n).collect();
        fn find(r: &mut Vec<usize>, x: usize) -> usize {
            if r[x] != x {
                let y = find(r, r[x]);
                r[x] = y;
            }
            r[x]
        }
        let mut want: Bars = vec![(0, fbits(0.0), None)];
        for (w, i, j) in edges {
            let (a, b) = (find(&mut root, i), find(&mut root, j));
            if a != b {
                root[a] = b;
                if w > 0.0 {
                    want.push((0, fbits(0.0), Some(fbits(w))));
                }
            }
        }
        want.sort();
        let zero: Bars = base.iter().filter(|b| b.0 == 0).copied().collect();
        same(&zero, &want, "degree zero against the minimum spanning tree");
        ctx.add("spanning_trees", 1);
    }

    // Euler characteristic at every scale
    if n <= 7 {
        let all = bars::<CF>(&d, n - 1, *rng.pick(&[Route::CoboundaryClearing, Route::CoboundaryStandard]));
        let s = rips::simplices(n, n - 1);
        let dia: Vec<f64> = s.iter().map(|x| rips::diameter(x, &d)).collect();
        let mut scales = dia.clone();
        scales.sort_by(|a, b| a.partial_cmp(b).unwrap());
        scales.dedup();
        for t in scales {
            let chi: i64 = s.iter().zip(&dia).filter(|(_, w)| **w <= t).map(|(x, _)| if x.len() % 2 == 1 { 1 } else { -1 }).sum();
            let alive: i64 = all
                .iter()
                .filter(|(_, x, y)| f64::from_bits(*x) <= t && y.is_none_or(|y| t < f64::from_bits(y)))
                .map(|b| if b.0 % 2 == 0 { 1 } else { -1 })
                .sum();
            ensure!(chi == alive, "at scale {t}: {alive} alive bars (signed), Euler characteristic {chi}; bars {}", show(&all));
            ctx.add("euler_characteristics", 1);
        }
    }
}

fn main() {
    vcore::driver::run("C19", vcore::gen::self_check, |ctx, rng, idx| match idx % 4 {
        0 => case::<Z2>(ctx, rng),
        1 => case::<Z3>(ctx, rng),
        2 => case::<Z13>(ctx, rng),
        _ => case::<Q>(ctx, rng),
    });
}
