//! Distance matrices and a reference Rips filtration, independent of the library.
use crate::algebra::*;
use crate::field::Fld;
use crate::gen::Complex;
use crate::rng::Rng;
use std::collections::{BTreeSet, HashMap};

/// A symmetric matrix with zero diagonal and non-negative entries (not necessarily a metric).
pub fn matrix(rng: &mut Rng, n: usize) -> Vec<Vec<f64>> {
    let mode = rng.below(11);
    let mut d = vec![vec![0.0; n]; n];
    let pts: Vec<Vec<f64>> = (0..n).map(|_| (0..2).map(|_| rng.f01() * 10.0).collect()).collect();
    let a: f64 = 1.0 + rng.f01();
    for i in 0..n {
        for j in 0..i {
            let x = match mode {
                // a few values: many ties
                0 => (1 + rng.below(3)) as f64,
                1 => rng.f01() * 5.0,
                // euclidean
                2 | 3 => ((pts[i][0] - pts[j][0]).powi(2) + (pts[i][1] - pts[j][1]).powi(2)).sqrt(),
                // circle
                4 => {
                    let k = (i - j).min(n - (i - j)) as f64;
                    (k * std::f64::consts::PI / n as f64).sin() * 2.0
                }
                // path metric of a cycle
                5 => (i - j).min(n - (i - j)) as f64,
                // grid
                6 => ((i % 3) as f64 - (j % 3) as f64).abs() + ((i / 3) as f64 - (j / 3) as f64).abs(),
                // zero distances and infinite distances
                7 => *rng.pick(&[0.0, 0.0, 1.0, 2.0, f64::INFINITY]),
                // ultrametric-like
                8 => ((i as u32 ^ j as u32).ilog2() + 1) as f64 * a,
                // all equal
                9 => a,
                // tiny and huge
                _ => *rng.pick(&[5e-324, 1e-300, 0.5, 1e300, f64::MAX, 3.0, 3.0000000000000004]),
            };
            d[i][j] = x;
            d[j][i] = x;
        }
    }
    if rng.chance(1, 8) {
        // a zero is a zero whichever sign bit it carries
        for row in d.iter_mut() {
            for x in row.iter_mut() {
                if *x == 0.0 && rng.chance(1, 2) {
                    *x = -0.0;
                }
            }
        }
    }
    d
}

/// All simplices of dimension <= max_dim with diameters, as sorted vertex lists.
pub fn simplices(n: usize, max_dim: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![];
    let mut layer: Vec<Vec<usize>> = (0..n).map(|v| vec![v]).collect();
    for _ in 0..=max_dim {
        out.extend(layer.iter().cloned());
        let mut next = vec![];
        for s in &layer {
            for v in s[s.len() - 1] + 1..n {
                let mut t = s.clone();
                t.push(v);
                next.push(t);
            }
        }
        layer = next;
    }
    out
}

pub fn diameter(s: &[usize], d: &[Vec<f64>]) -> f64 {
    let mut m = 0.0;
    for i in 0..s.len() {
        for j in 0..i {
            if d[s[i]][s[j]] > m {
                m = d[s[i]][s[j]];
            }
        }
    }
    m
}

/// Reference Rips complex up to max_dim as a filtered complex, with the level values.
pub fn complex(d: &[Vec<f64>], max_dim: usize, p: u32) -> (Complex, Vec<f64>, Vec<Vec<usize>>) {
    let f = Fld { p };
    let n = d.len();
    let mut s = simplices(n, max_dim);
    let dia: Vec<f64> = s.iter().map(|x| diameter(x, d)).collect();
    let mut vals: Vec<f64> = dia.clone();
    vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
    vals.dedup();
    let idx: HashMap<Vec<usize>, usize> = s.iter().enumerate().map(|(i, x)| (x.clone(), i)).collect();
    let cols = s
        .iter()
        .map(|x| {
            let mut c = SVec::new();
            if x.len() > 1 {
                for i in 0..x.len() {
                    let mut y = x.clone();
                    y.remove(i);
                    c.insert(idx[&y], f.int(if i % 2 == 0 { 1 } else { -1 }));
                }
            }
            c
        })
        .collect();
    let c = Complex {
        f,
        dim: s.iter().map(|x| x.len() - 1).collect(),
        lvl: dia
            .iter()
            .map(|x| vals.iter().position(|y| y == x).unwrap())
            .collect(),
        cols,
        planted: None,
        kind: "rips",
    };
    let s2 = std::mem::take(&mut s);
    (c, vals, s2)
}

/// Bars as sortable keys: (degree, birth bits, death bits), positive length only; death = None: infinite.
pub type Bars = Vec<(usize, u64, Option<u64>)>;

pub fn fbits(x: f64) -> u64 {
    // order preserving for non-negative values; -0.0 and 0.0 coincide
    (x + 0.0).to_bits()
}

/// Reference barcode in degrees < max_dim of the filtered complex built up to max_dim
/// (degree max_dim has only births there).
pub fn barcode(d: &[Vec<f64>], top_degree: usize, p: u32) -> Bars {
    let (c, vals, _) = complex(d, top_degree + 1, p);
    let (pairs, zero) = c.pairing();
    let mut bars = vec![];
    let births: BTreeSet<usize> = pairs.iter().map(|x| x.0).collect();
    for (b, e) in &pairs {
        if c.dim[*b] <= top_degree && c.lvl[*b] != c.lvl[*e] {
            bars.push((c.dim[*b], fbits(vals[c.lvl[*b]]), Some(fbits(vals[c.lvl[*e]]))));
        }
    }
    for z in &zero {
        if !births.contains(z) && c.dim[*z] <= top_degree {
            bars.push((c.dim[*z], fbits(vals[c.lvl[*z]]), None));
        }
    }
    bars.sort();
    bars
}
