//! C17: Rips bases enumerate every simplex once, in filtration order; indices are faithful.
use ordered_float::NotNan;
use phlite::fields::{Z2, Z3};
use phlite::matrices::{ColBasis, HasColBasis, HasRowFiltration, SplitByDimension};
use phlite_rips::cohomology::build_rips_coboundary_matrix;
use phlite_rips::homology::build_rips_boundary_matrix;
use phlite_rips::{build_rips_bases, MultiDimRipsBasisWithFilt, RipsIndex};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use vcore::rips;
use vcore::{ensure, ensure_eq, Ctx, Rng};

fn binom(n: usize, k: usize) -> usize {
    (0..k).fold(1usize, |a, i| a.saturating_mul(n.saturating_sub(i)) / (i + 1))
}

fn bases(ctx: &mut Ctx, rng: &mut Rng) {
    let n = match rng.below(40) {
        0 => 0,
        1..=30 => rng.range(1, 9),
        31..=38 => rng.range(10, 40),
        _ => *rng.pick(&[64, 127, 128, 255, 256, 300]),
    };
    let mut md = if n > 12 { rng.below(4) } else { rng.below(8) };
    while (0..=md).map(|d| binom(n, d + 1)).sum::<usize>() > 60_000 || n > 60 && md > 1 {
        md -= 1;
    }
    let dist = rips::matrix(rng, n);
    let nn: Vec<Vec<NotNan<f64>>> = dist.iter().map(|r| r.iter().map(|x| NotNan::new(*x).unwrap()).collect()).collect();
    ctx.sig(&format!("{md}{dist:?}"));
    ctx.describe(|| format!("n={n} max_dim={md} {dist:?}"));
    ctx.nontrivial = n > 1;
    let check = |ctx: &mut Ctx, b: &MultiDimRipsBasisWithFilt, what: &str| {
        let mut concat: Vec<RipsIndex> = vec![];
        for d in 0..=md {
            let s = b.in_dimension(d);
            let els: Vec<RipsIndex> = (0..s.size()).map(|i| s.element(i)).collect();
            let vecs: Vec<Vec<usize>> = els.iter().map(|e| e.to_vec(n)).collect();
            ensure_eq!(els.len(), binom(n, d + 1), "{what}: size of dimension {d} for {n} points");
            let set: BTreeSet<&Vec<usize>> = vecs.iter().collect();
            ensure_eq!(set.len(), vecs.len(), "{what}: distinct simplices in dimension {d}");
            for v in &vecs {
                ensure!(v.len() == d + 1 && v.windows(2).all(|w| w[0] < w[1]) && v.iter().all(|x| *x < n),
                    "{what}: dimension {d} lists {v:?}, which is no {d}-simplex on {n} points");
            }
            for (i, e) in els.iter().enumerate() {
                ensure_eq!(e.dimension(n), d, "{what}: dimension of {:?}", vecs[i]);
            }
            let keys: Vec<(NotNan<f64>, RipsIndex)> = els.iter().zip(&vecs).map(|(e, v)| (NotNan::new(rips::diameter(v, &dist)).unwrap(), *e)).collect();
            for (i, w) in keys.windows(2).enumerate() {
                ensure!(w[0] < w[1], "{what}: dimension {d} is not sorted by (diameter, index) at position {i}: {:?} then {:?}", w[0], w[1]);
            }
            let uniq: BTreeSet<RipsIndex> = els.iter().copied().collect();
            ensure_eq!(uniq.len(), els.len(), "{what}: distinct indices in dimension {d}");
            ctx.add("simplices", els.len() as u64);
            if els.len() < 3000 {
                let look = s.construct_reverse_lookup();
                let want: HashMap<RipsIndex, usize> = els.iter().copied().enumerate().map(|(i, e)| (e, i)).collect();
                ensure_eq!(look, want, "{what}: reverse lookup of dimension {d}");
            }
            concat.extend(els);
        }
        ensure_eq!(b.size(), concat.len(), "{what}: size of the whole basis");
        for (i, e) in concat.iter().enumerate() {
            if concat.len() < 4000 || i % 37 == 0 || i + 2 > concat.len() {
                ensure_eq!(b.element(i).to_vec(n), e.to_vec(n), "{what}: position {i} of the whole basis");
            }
        }
        let uniq: BTreeSet<RipsIndex> = concat.iter().copied().collect();
        ensure_eq!(uniq.len(), concat.len(), "{what}: distinct indices over all dimensions");
        ctx.add("bases_checked", 1);
    };
    check(ctx, &build_rips_bases(&nn, md), "build_rips_bases");
    let bd = build_rips_boundary_matrix::<Z3>(nn.clone(), md);
    check(ctx, &*HasColBasis::basis(&bd), "boundary matrix");
    let cob = build_rips_coboundary_matrix::<Z2>(nn, md);
    check(ctx, &*HasColBasis::basis(&cob), "coboundary matrix");
    ctx.max("most_points", n as u64);
    ctx.max("highest_dimension", md as u64);
    if md >= n {
        ctx.add("bases_with_empty_dimensions", 1);
    }
    if md == 0 {
        ctx.add("bases_of_dimension_zero", 1);
    }
    for i in 0..cob.basis.size().min(50) {
        let e = cob.basis.element(i);
        ensure!(cob.filtration_value(e) == bd.filtration_value(e), "filtration value of {:?} differs between the matrices", e.to_vec(n));
    }
}

fn indices(ctx: &mut Ctx, rng: &mut Rng) {
    let n = match rng.below(6) {
        0 => rng.range(1, 4),
        1 => rng.range(5, 60),
        2 => *rng.pick(&[1, 2, 3, 7, 8, 9, 15, 16, 31, 63, 64, 127, 128, 255, 256, 1023, 65534, 65535, 65536]),
        3 => rng.range(1000, 100_000),
        4 => rng.range(1 << 20, 1 << 31),
        _ => *rng.pick(&[(1 << 32) - 2, (1 << 32) - 1, 1 << 32, 1 << 40, usize::MAX - 1]),
    };
    let mut cap = 0;
    let mut x: u128 = 1;
    while x * (n as u128 + 1) <= 1 << 64 {
        x *= n as u128 + 1;
        cap += 1;
    }
    ctx.nontrivial = true;
    ensure!(RipsIndex::from_indices(std::iter::empty(), n).is_none(), "the empty list has an index (n={n})");
    let mut seen: BTreeMap<RipsIndex, Vec<usize>> = BTreeMap::new();
    for _ in 0..40 {
        let len = rng.range(1, cap.min(n));
        let mut s: BTreeSet<usize> = BTreeSet::new();
        if rng.chance(1, 3) {
            s.insert(n - 1);
        }
        if rng.chance(1, 3) {
            s.insert(0);
        }
        for _ in 0..len {
            let v = if rng.chance(1, 2) { n - 1 - rng.below(n.min(8)) } else { (rng.u64() as usize) % n };
            if s.len() < len {
                s.insert(v);
            }
        }
        let mut s: Vec<usize> = s.into_iter().take(len).collect();
        // one vertex more than the base allows in general: the index still fits when the last vertex is small enough
        if cap < n && rng.chance(1, 6) {
            let mut t: BTreeSet<usize> = BTreeSet::new();
            while t.len() < cap + 1 {
                let span = (cap + 1 + rng.below(3)).min(n);
                t.insert(rng.below(span));
            }
            let t: Vec<usize> = t.into_iter().collect();
            let place = (n as u128 + 1).checked_pow(cap as u32);
            let code = place.and_then(|p| p.checked_mul(t[cap] as u128 + 2));
            if code.is_some_and(|c| c <= 1 << 64) {
                s = t;
                ctx.add("indices_above_the_general_bound", 1);
            }
        }
        let Some(i) = RipsIndex::from_indices(s.iter().copied(), n) else {
            vcore::viol(format!("no index for {s:?} (n={n})"))
        };
        ensure_eq!(i.to_vec(n), s, "round trip of {s:?} (n={n})");
        ensure_eq!(i.dimension(n), s.len() - 1, "dimension of {s:?} (n={n})");
        if let Some(t) = seen.insert(i, s.clone()) {
            ensure!(t == s, "{t:?} and {s:?} share an index (n={n})");
        }
        ctx.add("indices_round_tripped", 1);
        ctx.max("longest_simplex", s.len() as u64);
    }
    ctx.sig(&format!("{n}{:?}", seen.values().collect::<Vec<_>>()));
    ctx.describe(|| format!("n={n} {:?}", seen.values().collect::<Vec<_>>()));
}

fn main() {
    vcore::driver::run("C17", || {}, |ctx, rng, idx| {
        if idx % 3 == 0 {
            indices(ctx, rng)
        } else {
            bases(ctx, rng)
        }
    });
}
