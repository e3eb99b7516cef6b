//! C16: Rips boundary and coboundary are exactly the simplicial (co)boundary maps.
use ordered_float::NotNan;
use phlite::fields::*;
use phlite::matrices::combinators::product;
use phlite::matrices::{HasRowFiltration, MatrixOracle};
use phlite_rips::cohomology::build_rips_coboundary_matrix;
use phlite_rips::homology::build_rips_boundary_matrix;
use phlite_rips::RipsIndex;
use std::collections::BTreeMap;
use vcore::field::TField;
use vcore::mon::dec_keys;
use vcore::rips;
use vcore::{ensure, ensure_eq, Ctx, Rng};

type Simplex = Vec<usize>;

fn faces(s: &[usize], sign: impl Fn(usize) -> i128, f: vcore::field::Fld) -> BTreeMap<Simplex, vcore::field::Sc> {
    let mut m = BTreeMap::new();
    if s.len() > 1 {
        for i in 0..s.len() {
            let mut y = s.to_vec();
            y.remove(i);
            m.insert(y, f.int(sign(i)));
        }
    }
    m
}
fn cofaces(s: &[usize], n: usize, f: vcore::field::Fld) -> BTreeMap<Simplex, vcore::field::Sc> {
    let mut m = BTreeMap::new();
    for v in 0..n {
        if !s.contains(&v) {
            let i = s.iter().filter(|w| **w < v).count();
            let mut y = s.to_vec();
            y.insert(i, v);
            m.insert(y, f.int(if i % 2 == 0 { 1 } else { -1 }));
        }
    }
    m
}

/// How many vertices a simplex may have before its index leaves the machine word.
fn max_len(n: usize) -> usize {
    let mut k = 0;
    let mut x: u128 = 1;
    while x * (n as u128 + 1) <= u64::MAX as u128 + 1 {
        x *= n as u128 + 1;
        k += 1;
    }
    k
}

fn case<CF: TField>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let n = match rng.below(100) {
        0..=64 => rng.range(1, 8),
        65..=94 => rng.range(9, 24),
        95..=97 => *rng.pick(&[31, 32, 33, 62, 63, 64, 65, 90]),
        _ => *rng.pick(&[126, 127, 128, 129, 200, 254, 255, 256, 257, 300]),
    };
    let dist = rips::matrix(rng, n);
    let nn: Vec<Vec<NotNan<f64>>> = dist.iter().map(|r| r.iter().map(|x| NotNan::new(*x).unwrap()).collect()).collect();
    let md = if n > 24 { rng.below(2) } else { rng.below(3) };
    let bd = build_rips_boundary_matrix::<CF>(nn.clone(), md);
    let cob = build_rips_coboundary_matrix::<CF>(nn, md);
    let f = CF::fld();
    let sgn = |i: usize| if i % 2 == 0 { 1 } else { -1 };
    ctx.sig(&format!("{}{md}{dist:?}", CF::NAME));
    ctx.describe(|| format!("{} n={n} max_dim={md} {dist:?}", CF::NAME));
    ctx.max("most_points", n as u64);
    let cap = max_len(n);
    let all: Vec<Simplex> = if n <= 5 {
        rips::simplices(n, n - 1)
    } else {
        let k = if n > 100 { 2 } else { 8 };
        (0..k)
            .map(|_| {
                let len = match rng.below(4) {
                    0 => rng.range(1, n.min(cap)),
                    _ => rng.range(1, n.min(cap).min(4)),
                };
                let mut s = rng.subset(n, len);
                // extremes of the vertex range
                if rng.chance(1, 4) {
                    s[0] = 0;
                    let l = s.len() - 1;
                    s[l] = n - 1;
                }
                s.sort();
                s.dedup();
                s
            })
            .collect()
    };
    let list = |es: &[(CF, RipsIndex)]| -> Vec<Simplex> {
        let mut v: Vec<Simplex> = es.iter().map(|(_, r)| r.to_vec(n)).collect();
        v.sort();
        v
    };
    for s in &all {
        let idx = RipsIndex::from_indices(s.iter().copied(), n).unwrap_or_else(|| vcore::viol(format!("no index for {s:?}")));
        let dia = rips::diameter(s, &dist);
        // ---- boundary
        let want = faces(s, sgn, f);
        let es: Vec<(CF, RipsIndex)> = bd.column(idx).collect();
        ensure_eq!(list(&es), want.keys().cloned().collect::<Vec<_>>(), "faces of {s:?} (n={n})");
        ensure_eq!(dec_keys(es.iter().map(|(x, r)| (*x, r.to_vec(n)))), want, "boundary of {s:?} (n={n})");
        // the attached basis annotates columns in the default way, the bare matrix in its own way
        let bare: Vec<_> = bd.matrix.column_with_filtration(idx).collect();
        ensure_eq!(dec_keys(bare.iter().map(|e| (e.coeff, e.row_index.to_vec(n)))), want, "annotated boundary of {s:?} (n={n})");
        for e in bd.column_with_filtration(idx).chain(bare) {
            let g = rips::diameter(&e.row_index.to_vec(n), &dist);
            ensure!(e.filtration_value.into_inner() == g, "face {:?} of {s:?} carries {}, its diameter is {g}", e.row_index.to_vec(n), e.filtration_value);
            ensure!(e.filtration_value.into_inner() <= dia, "a face of {s:?} is larger than {s:?}");
        }
        ensure!(bd.filtration_value(idx).into_inner() == dia, "boundary: value of {s:?} is {}, its diameter is {dia}", bd.filtration_value(idx));
        ensure!(cob.filtration_value(idx).into_inner() == dia, "coboundary: value of {s:?} is {}, its diameter is {dia}", cob.filtration_value(idx));
        if s.len() > 1 {
            let twice = dec_keys(product(&bd, &bd).column(idx));
            ensure!(twice.is_empty(), "boundary of the boundary of {s:?} is {twice:?}");
        }
        ctx.add("boundary_columns", 1);
        ctx.add("faces", es.len() as u64);
        ctx.max("most_vertices", s.len() as u64);
        // ---- coboundary
        if s.len() + 1 > cap {
            continue;
        }
        let want = cofaces(s, n, f);
        let es: Vec<(CF, RipsIndex)> = cob.column(idx).collect();
        ensure_eq!(list(&es), want.keys().cloned().collect::<Vec<_>>(), "cofaces of {s:?} (n={n})");
        ensure_eq!(dec_keys(es.iter().map(|(x, r)| (*x, r.to_vec(n)))), want, "coboundary of {s:?} (n={n})");
        let ann: Vec<_> = cob.column_with_filtration(idx).collect();
        ensure_eq!(dec_keys(ann.iter().map(|e| (e.coeff, e.row_index.to_vec(n)))), want, "annotated coboundary of {s:?} (n={n})");
        let bare: Vec<_> = cob.matrix.column_with_filtration(idx).collect();
        ensure_eq!(dec_keys(bare.iter().map(|e| (e.coeff, e.row_index.to_vec(n)))), want, "coboundary of {s:?} annotated by the bare matrix (n={n})");
        for e in ann.iter().chain(&bare) {
            let v = e.row_index.to_vec(n);
            let g = rips::diameter(&v, &dist);
            ensure!(e.filtration_value.into_inner() == g, "coface {v:?} of {s:?} carries {}, its diameter is {g}", e.filtration_value);
            ensure!(g >= dia, "a coface of {s:?} is smaller than {s:?}");
        }
        ctx.add("coboundary_columns", 1);
        ctx.add("cofaces", es.len() as u64);
        // ---- transposes: <bd t, s> = <cob s, t>
        for (x, t) in es.iter().take(if n > 24 { 6 } else { 24 }) {
            let back = dec_keys(bd.column(*t));
            ensure_eq!(back.get(&idx).copied(), Some(x.dec()), "entry of the boundary of {:?} at {s:?} against the coboundary", t.to_vec(n));
            ctx.add("transposed_entries", 1);
        }
        if n <= 24 {
            for (x, t) in bd.column(idx) {
                let back = dec_keys(cob.column(t));
                ensure_eq!(back.get(&idx).copied(), Some(x.dec()), "entry of the coboundary of {:?} at {s:?} against the boundary", t.to_vec(n));
                ctx.add("transposed_entries", 1);
            }
        }
        if s.len() + 2 <= cap && n <= 130 {
            let twice = dec_keys(product(&cob, &cob).column(idx));
            ensure!(twice.is_empty(), "coboundary of the coboundary of {s:?} is {twice:?}");
        }
    }
    // ---- further complexes on as many points, one after the other (the memory of one is free
    // for the next), each asked first for what the one before was asked last
    if n <= 90 && rng.chance(1, 3) {
        drop((bd, cob));
        let s = rng.pick(&all).clone();
        let idx = RipsIndex::from_indices(s.iter().copied(), n).unwrap();
        let coboundaries = rng.chance(1, 2);
        for _ in 0..rng.range(3, 6) {
            let next = rips::matrix(rng, n);
            let dia = rips::diameter(&s, &next);
            let nn: Vec<Vec<NotNan<f64>>> = next.iter().map(|r| r.iter().map(|x| NotNan::new(*x).unwrap()).collect()).collect();
            let (got, cofaces, last) = if coboundaries {
                let m = build_rips_coboundary_matrix::<CF>(nn, md);
                let first = m.filtration_value(idx);
                let es: Vec<_> = if s.len() < cap { m.matrix.column_with_filtration(idx).collect() } else { vec![] };
                (first, es, m.filtration_value(idx))
            } else {
                let m = build_rips_boundary_matrix::<CF>(nn, md);
                let first = m.filtration_value(idx);
                let es: Vec<_> = m.matrix.column_with_filtration(idx).collect();
                (first, es, m.filtration_value(idx))
            };
            ensure!(got.into_inner() == dia && last.into_inner() == dia, "in a later complex on {n} points the value of {s:?} is {got}, then {last}, its diameter is {dia}");
            for e in cofaces {
                let v = e.row_index.to_vec(n);
                let g = rips::diameter(&v, &next);
                ensure!(e.filtration_value.into_inner() == g, "in a later complex on {n} points {v:?} carries {}, its diameter is {g}", e.filtration_value);
            }
            ctx.add("later_complexes", 1);
        }
    }
    ctx.nontrivial = n > 1;
}

fn main() {
    vcore::driver::run("C16", vcore::gen::self_check, |ctx, rng, idx| match idx % 6 {
        0 => case::<Z2>(ctx, rng),
        1 => case::<Z3>(ctx, rng),
        2 => case::<Z5>(ctx, rng),
        3 => case::<Z13>(ctx, rng),
        4 => case::<Z7>(ctx, rng),
        _ => case::<Q>(ctx, rng),
    });
}
