//! Digraph workloads and a reference for path homology, independent of the library.
pub mod owned;
use ordered_float::NotNan;
use phlite_grpph::coboundary::{DigraphEdgeSet, MapDigraphFiltration, PathHom2Cell, PathHomCell, VecDigraphFiltration};
use std::collections::{BTreeMap, BTreeSet};
use vcore::algebra::{add_term, SVec};
use vcore::field::Fld;
use vcore::Rng;

pub type Edge = (u16, u16);
pub type TwoPath = (u16, u16, u16);

/// A digraph filtration (entry times of edges, partial) with a set of grounded edges.
#[derive(Clone, Debug)]
pub struct Dg {
    pub n: u16,
    pub time: BTreeMap<Edge, f64>,
    pub ground: BTreeSet<Edge>,
}

pub fn nn(x: f64) -> NotNan<f64> {
    NotNan::new(x).unwrap()
}

impl Dg {
    pub fn map(&self) -> MapDigraphFiltration {
        self.time.iter().map(|(e, t)| (*e, nn(*t))).collect()
    }
    pub fn table(&self) -> VecDigraphFiltration {
        (0..self.n)
            .map(|i| (0..self.n).map(|j| self.time.get(&(i, j)).map(|t| nn(*t))).collect())
            .collect()
    }
    pub fn edge_set(&self) -> DigraphEdgeSet {
        self.ground.iter().copied().collect()
    }
    pub fn edge_value(&self, e: &Edge) -> Option<f64> {
        if self.ground.contains(e) {
            Some(0.0)
        } else {
            self.time.get(e).copied()
        }
    }
    /// Times at which something happens, ascending.
    pub fn critical(&self) -> Vec<f64> {
        let mut v: Vec<NotNan<f64>> = self.time.values().map(|x| nn(*x)).collect();
        v.sort();
        v.dedup();
        v.into_iter().map(|x| x.into_inner()).collect()
    }
}

/// Random digraph filtration. Times are non-negative, finite, with or without ties.
pub fn random(rng: &mut Rng, hi: usize) -> Dg {
    let n = rng.range(1, hi);
    let mode = rng.below(9);
    let density = *rng.pick(&[1usize, 3, 5, 8, 10]);
    let mut time: BTreeMap<Edge, f64> = BTreeMap::new();
    let values: Vec<f64> = match rng.below(5) {
        0 => vec![1.0],
        1 => vec![0.0, 1.0, 2.0],
        2 => vec![1.0, 2.0, 3.0, 4.0],
        3 => vec![0.0, 5e-324, 0.1, 0.2, 0.30000000000000004, 0.3, 1e300, f64::MAX],
        _ => vec![],
    };
    let pick = |rng: &mut Rng| if values.is_empty() { rng.f01() * 4.0 } else { *rng.pick(&values) };
    let mut put = |i: usize, j: usize, x: f64| {
        if i != j && i.max(j) < n {
            time.insert((i as u16, j as u16), x);
        }
    };
    match mode {
        0 | 1 | 2 => {
            for i in 0..n {
                for j in 0..n {
                    if rng.chance(density, 10) {
                        put(i, j, pick(rng));
                    }
                }
            }
        }
        // bipartite layers: many long squares
        3 | 4 => {
            let k = rng.range(2, 4);
            for i in 0..n {
                for j in 0..n {
                    if (i % k + 1) % k == j % k && (k > 2 || i % 2 == 0 || rng.chance(1, 2)) && rng.chance(density.max(5), 10) {
                        put(i, j, pick(rng));
                    }
                }
            }
        }
        // one late shortcut over many bridges
        5 | 6 => {
            for i in 2..n {
                put(0, i, pick(rng));
                put(i, 1, pick(rng));
                if rng.chance(1, 3) {
                    put(1, i, pick(rng));
                }
                if rng.chance(1, 3) {
                    let j = rng.range(2, n - 1);
                    put(i, j, pick(rng));
                }
            }
            if rng.chance(2, 3) {
                put(0, 1, if rng.chance(1, 2) { 4.5 } else { pick(rng) });
            }
            if rng.chance(1, 3) {
                put(1, 0, pick(rng));
            }
        }
        // shortest paths of a sparse digraph, as the command line and Python use it
        _ => {
            let mut w: BTreeMap<(usize, usize), f64> = BTreeMap::new();
            for i in 0..n {
                if rng.chance(4, 5) && n > 1 {
                    w.insert((i, (i + 1) % n), pick(rng));
                }
                for j in 0..n {
                    if i != j && rng.chance(density, 40) {
                        w.insert((i, j), pick(rng));
                    }
                }
            }
            for s in 0..n {
                let mut d = vec![f64::INFINITY; n];
                d[s] = 0.0;
                for _ in 0..n {
                    for ((i, j), x) in &w {
                        let c = d[*i] + x;
                        if c < d[*j] {
                            d[*j] = c;
                        }
                    }
                }
                for (t, x) in d.iter().enumerate() {
                    if t != s && x.is_finite() {
                        put(s, t, *x);
                    }
                }
            }
        }
    }
    // grounding: some of the timed edges and some that never appear
    let g = rng.below(4);
    let mut ground = BTreeSet::new();
    for i in 0..n as u16 {
        for j in 0..n as u16 {
            if i != j {
                let timed = time.contains_key(&(i, j));
                let yes = match g {
                    0 => false,
                    1 => timed && rng.chance(1, 2),
                    2 => rng.chance(1, if timed { 2 } else { 6 }),
                    _ => timed,
                };
                if yes {
                    ground.insert((i, j));
                }
            }
        }
    }
    let dg = Dg { n: n as u16, time, ground };
    if rng.chance(1, 120) {
        spread(&dg, rng)
    } else {
        dg
    }
}

/// The same digraph on a random ascending choice of vertices of a much larger vertex set.
fn spread(dg: &Dg, rng: &mut Rng) -> Dg {
    let n = rng.range(200, 320).max(dg.n as usize);
    let mut to = rng.subset(n, dg.n as usize);
    if rng.chance(1, 2) {
        let l = to.len() - 1;
        to[l] = n - 1;
    }
    let m = |e: &Edge| (to[e.0 as usize] as u16, to[e.1 as usize] as u16);
    Dg {
        n: n as u16,
        time: dg.time.iter().map(|(e, x)| (m(e), *x)).collect(),
        ground: dg.ground.iter().map(m).collect(),
    }
}

/// A two-cell as a combination of two-step paths (integers).
pub fn two_paths(c: &PathHom2Cell) -> Vec<(i128, TwoPath)> {
    match *c {
        PathHom2Cell::DoubleEdge(a, b) => vec![(1, (a, b, a))],
        PathHom2Cell::DirectedTriangle(a, b, c) => vec![(1, (a, b, c))],
        PathHom2Cell::LongSquare(a, b, c, d) => vec![(1, (a, c, d)), (-1, (a, b, d))],
    }
}

/// Boundary of a combination of two-step paths; degenerate paths (a, a) are zero.
pub fn d2(v: &[(i128, TwoPath)], f: Fld) -> SVec<Edge> {
    let mut out = SVec::new();
    for (x, (a, b, c)) in v {
        for (s, e) in [(1, (*b, *c)), (-1, (*a, *c)), (1, (*a, *b))] {
            if e.0 != e.1 {
                add_term(&mut out, e, f.int(s * x), f);
            }
        }
    }
    out
}

/// Edges a two-cell runs through, including the edges of its boundary.
pub fn edges_of(c: &PathHom2Cell) -> Vec<Edge> {
    match *c {
        PathHom2Cell::DoubleEdge(a, b) => vec![(a, b), (b, a)],
        PathHom2Cell::DirectedTriangle(a, b, c) => vec![(a, b), (b, c), (a, c)],
        PathHom2Cell::LongSquare(a, b, c, d) => vec![(a, b), (b, d), (a, c), (c, d)],
    }
}

/// Two-step paths all of whose steps are present at time t.
pub fn allowed(dg: &Dg, t: f64) -> Vec<TwoPath> {
    let e: Vec<Edge> = dg.time.iter().filter(|(_, x)| **x <= t).map(|(e, _)| *e).collect();
    let mut by_src: BTreeMap<u16, Vec<u16>> = BTreeMap::new();
    for (a, b) in &e {
        by_src.entry(*a).or_default().push(*b);
    }
    let mut out = vec![];
    for (a, b) in &e {
        for c in by_src.get(b).into_iter().flatten() {
            out.push((*a, *b, *c));
        }
    }
    out
}

/// The part of the boundary of a two-step path that is not a combination of edges present at t.
pub fn outside(dg: &Dg, t: f64, p: &TwoPath) -> Option<Edge> {
    let e = (p.0, p.2);
    (e.0 != e.1 && !dg.time.get(&e).is_some_and(|x| *x <= t)).then_some(e)
}

pub fn cell_of(r: &PathHomCell) -> PathHom2Cell {
    match r {
        PathHomCell::TwoCell(c) => *c,
        o => vcore::viol(format!("{o:?} is listed in the coboundary of an edge")),
    }
}

pub fn single(cells: Vec<(NotNan<f64>, PathHomCell)>) -> phlite_grpph::coboundary::PathHomSingleBasis {
    phlite_grpph::coboundary::PathHomSingleBasis(cells)
}
