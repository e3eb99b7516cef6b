//! Generators of filtered chain complexes over a reference field.
use crate::algebra::*;
use crate::field::{Fld, Sc};
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// A filtered chain complex. Cell ids are label ranks: label order is id order.
#[derive(Clone, Debug)]
pub struct Complex {
    pub f: Fld,
    pub dim: Vec<usize>,
    pub lvl: Vec<usize>,
    /// boundary columns, rows are cell ids
    pub cols: Vec<SVec<usize>>,
    /// pairs known by construction (birth, death)
    pub planted: Option<Vec<(usize, usize)>>,
    pub kind: &'static str,
}

impl Complex {
    pub fn n(&self) -> usize {
        self.dim.len()
    }
    pub fn max_dim(&self) -> usize {
        self.dim.iter().copied().max().unwrap_or(0)
    }
    pub fn nlvl(&self) -> usize {
        self.lvl.iter().copied().max().map_or(0, |x| x + 1)
    }
    /// Cells of one dimension sorted by (filtration, label).
    pub fn in_dim(&self, d: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..self.n()).filter(|i| self.dim[*i] == d).collect();
        v.sort_by_key(|i| (self.lvl[*i], *i));
        v
    }
    /// rank of every cell in the (filtration, label) order
    pub fn row_rank(&self) -> Vec<usize> {
        let mut v: Vec<usize> = (0..self.n()).collect();
        v.sort_by_key(|i| (self.lvl[*i], *i));
        let mut r = vec![0; self.n()];
        for (k, i) in v.into_iter().enumerate() {
            r[i] = k;
        }
        r
    }
    pub fn nnz(&self) -> usize {
        self.cols.iter().map(|c| c.len()).sum()
    }
    pub fn coboundary_cols(&self) -> Vec<SVec<usize>> {
        let mut t = vec![SVec::new(); self.n()];
        for (j, c) in self.cols.iter().enumerate() {
            for (i, x) in c {
                t[*i].insert(j, *x);
            }
        }
        t
    }
    /// The unique persistence pairing, (birth, death), and the columns that reduce to zero.
    pub fn pairing(&self) -> (BTreeSet<(usize, usize)>, BTreeSet<usize>) {
        let rank = self.row_rank();
        let mut pairs = BTreeSet::new();
        let mut zero = BTreeSet::new();
        for d in 0..=self.max_dim() {
            for (j, low) in reduce_lows(&self.cols, &self.in_dim(d), &rank, self.f) {
                match low {
                    Some(b) => {
                        pairs.insert((b, j));
                    }
                    None => {
                        zero.insert(j);
                    }
                }
            }
        }
        (pairs, zero)
    }
    pub fn check_square_zero(&self) {
        let m: HashMap<usize, SVec<usize>> =
            self.cols.iter().cloned().enumerate().collect();
        for (j, c) in self.cols.iter().enumerate() {
            assert!(matvec(&m, c, self.f).is_empty(), "dd != 0 ({})", self.kind);
            for i in c.keys() {
                assert!(self.dim[*i] + 1 == self.dim[j], "dims ({})", self.kind);
                assert!(self.lvl[*i] <= self.lvl[j], "not a filtration ({})", self.kind);
            }
        }
    }
    pub fn brief(&self) -> String {
        let mut per = vec![0; self.max_dim() + 1];
        for d in &self.dim {
            per[*d] += 1;
        }
        if self.n() == 0 {
            per.clear();
        }
        let mut s = format!(
            "{} p={} cells/dim={:?} levels={}",
            self.kind,
            self.f.p,
            per,
            self.nlvl()
        );
        if self.n() <= 14 {
            for (j, c) in self.cols.iter().enumerate() {
                s.push_str(&format!(
                    "; {j}(d{},l{})={:?}",
                    self.dim[j], self.lvl[j], c
                ));
            }
        }
        s
    }
    pub fn fingerprint(&self) -> String {
        format!("{:?}{:?}{:?}{:?}", self.f, self.dim, self.lvl, self.cols)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Size {
    Tiny,
    Small,
    Medium,
    Large,
}

impl Size {
    pub fn draw(rng: &mut Rng) -> Size {
        if cfg!(miri) {
            return Size::Tiny;
        }
        match rng.below(100) {
            0..=34 => Size::Tiny,
            35..=84 => Size::Small,
            85..=97 => Size::Medium,
            _ => Size::Large,
        }
    }
    pub fn draw_no_large(rng: &mut Rng) -> Size {
        if cfg!(miri) {
            return Size::Tiny;
        }
        match rng.below(100) {
            0..=34 => Size::Tiny,
            35..=89 => Size::Small,
            _ => Size::Medium,
        }
    }
}

/// Closure of a family of simplices, with oriented boundary.
fn from_simplices(f: Fld, tops: &[Vec<usize>], kind: &'static str) -> Complex {
    let mut all: BTreeSet<(usize, Vec<usize>)> = BTreeSet::new();
    for t in tops {
        let mut t = t.clone();
        t.sort_unstable();
        t.dedup();
        let k = t.len();
        for mask in 1u32..(1 << k) {
            let s: Vec<usize> = (0..k).filter(|i| mask >> i & 1 == 1).map(|i| t[i]).collect();
            all.insert((s.len() - 1, s));
        }
    }
    let list: Vec<(usize, Vec<usize>)> = all.into_iter().collect();
    let idx: HashMap<Vec<usize>, usize> = list
        .iter()
        .enumerate()
        .map(|(i, (_, s))| (s.clone(), i))
        .collect();
    let mut cols = vec![];
    for (d, s) in &list {
        let mut c = SVec::new();
        if *d > 0 {
            for i in 0..s.len() {
                let mut face = s.clone();
                face.remove(i);
                c.insert(idx[&face], f.int(if i % 2 == 0 { 1 } else { -1 }));
            }
        }
        cols.push(c);
    }
    Complex {
        f,
        dim: list.iter().map(|(d, _)| *d).collect(),
        lvl: vec![0; list.len()],
        cols,
        planted: None,
        kind,
    }
}

fn cubical(f: Fld, shape: &[usize]) -> Complex {
    // cells are products of (vertex i | edge i) per axis: coordinate 0..2*s-1, odd = edge
    let mut cells: Vec<Vec<usize>> = vec![vec![]];
    for s in shape {
        let mut next = vec![];
        for c in &cells {
            for x in 0..(2 * s - 1) {
                let mut d = c.clone();
                d.push(x);
                next.push(d);
            }
        }
        cells = next;
    }
    let dimf = |c: &Vec<usize>| c.iter().filter(|x| *x % 2 == 1).count();
    cells.sort_by_key(|c| (dimf(c), c.clone()));
    let idx: BTreeMap<Vec<usize>, usize> = cells
        .iter()
        .enumerate()
        .map(|(i, c)| (c.clone(), i))
        .collect();
    let mut cols = vec![];
    for c in &cells {
        let mut col = SVec::new();
        let mut sign = 1;
        for a in 0..c.len() {
            if c[a] % 2 == 1 {
                for (dx, s) in [(1i64, 1i128), (-1, -1)] {
                    let mut face = c.clone();
                    face[a] = (c[a] as i64 + dx) as usize;
                    col.insert(idx[&face], f.int(sign * s));
                }
                sign = -sign;
            }
        }
        cols.push(col);
    }
    Complex {
        f,
        dim: cells.iter().map(dimf).collect(),
        lvl: vec![0; cells.len()],
        cols,
        planted: None,
        kind: "cubical",
    }
}

/// A graph as a 1-dimensional complex.
fn graph(f: Fld, n: usize, edges: &[(usize, usize)], kind: &'static str) -> Complex {
    let mut cols = vec![SVec::new(); n];
    let mut dim = vec![0; n];
    for (a, b) in edges {
        // loops and multi-edges are allowed (CW)
        cols.push(lincomb([(*b, f.int(1)), (*a, f.int(-1))], f));
        dim.push(1);
    }
    let m = dim.len();
    Complex {
        f,
        dim,
        lvl: vec![0; m],
        cols,
        planted: None,
        kind,
    }
}

/// CW complexes with torsion: sums of Moore-like pieces, attached by degree k.
fn moore(f: Fld, rng: &mut Rng) -> Complex {
    let mut dim = vec![0];
    let mut cols: Vec<SVec<usize>> = vec![SVec::new()];
    let pieces = rng.range(1, 5);
    for _ in 0..pieces {
        let d = rng.range(1, 4);
        let k = *rng.pick(&[1i128, 2, 3, 4, 5, 6, 7, 10, 11, 13, -1, -2]);
        dim.push(d);
        cols.push(SVec::new());
        let e = dim.len() - 1;
        if rng.chance(3, 4) {
            dim.push(d + 1);
            cols.push(lincomb([(e, f.int(k))], f));
        }
    }
    let m = dim.len();
    Complex {
        f,
        dim,
        lvl: vec![0; m],
        cols,
        planted: None,
        kind: "moore",
    }
}

const RP2: [[usize; 3]; 10] = [
    [0, 1, 4],
    [0, 1, 5],
    [0, 2, 3],
    [0, 2, 5],
    [0, 3, 4],
    [1, 2, 3],
    [1, 2, 4],
    [1, 3, 5],
    [2, 4, 5],
    [3, 4, 5],
];

fn grid_surface(f: Fld, flip: bool, kind: &'static str) -> Complex {
    // 3x3 grid with identifications: torus or Klein bottle
    let (a, b) = (3usize, 4usize);
    let v = |i: usize, j: usize| -> usize {
        let (wrap, i2) = (i / a, i % a);
        let j2 = if wrap % 2 == 1 && flip {
            (2 * b - j) % b
        } else {
            j % b
        };
        i2 * b + j2
    };
    let mut t = vec![];
    for i in 0..a {
        for j in 0..b {
            t.push(vec![v(i, j), v(i + 1, j), v(i + 1, j + 1)]);
            t.push(vec![v(i, j), v(i, j + 1), v(i + 1, j + 1)]);
        }
    }
    from_simplices(f, &t, kind)
}

/// Direct sum of intervals followed by filtration-preserving changes of basis.
fn planted(f: Fld, rng: &mut Rng, size: Size) -> Complex {
    let (pairs, ess, maxd) = match size {
        Size::Tiny => (rng.below(4), rng.below(3), 2),
        Size::Small => (rng.range(2, 10), rng.below(5), 3),
        Size::Medium => (rng.range(10, 40), rng.below(20), 5),
        Size::Large => (rng.range(60, 180), rng.below(60), 6),
    };
    // distribute dimensions so that several pairs share a dimension
    let n = 2 * pairs + ess;
    let one_dim = rng.chance(1, 4).then(|| rng.below(maxd));
    let mut dim = vec![];
    let mut cols: Vec<SVec<usize>> = vec![];
    let mut pl = vec![];
    for _ in 0..pairs {
        let d = one_dim.unwrap_or_else(|| rng.below(maxd));
        dim.push(d);
        cols.push(SVec::new());
        let b = dim.len() - 1;
        dim.push(d + 1);
        cols.push(lincomb([(b, f.int(1))], f));
        pl.push((b, b + 1));
    }
    for _ in 0..ess {
        dim.push(one_dim.unwrap_or_else(|| rng.below(maxd + 1)));
        cols.push(SVec::new());
    }
    // levels: death >= birth
    let k = if n == 0 { 1 } else { rng.range(1, n) };
    let mut lvl: Vec<usize> = (0..n).map(|_| rng.below(k)).collect();
    for (b, d) in &pl {
        if lvl[*b] > lvl[*d] {
            lvl.swap(*b, *d);
        }
    }
    let mut c = Complex {
        f,
        dim,
        lvl,
        cols,
        planted: Some(pl),
        kind: "planted",
    };
    compress_levels(&mut c);
    // permute ids so that labels do not follow the construction
    relabel(&mut c, rng);
    // The planted pairing of equal-filtration cells is order dependent only within a dimension and
    // every basis change below is triangular for (filtration, id), so the pairs stay exact as long
    // as death columns are distinct pivots already, which they are.
    let ops = match size {
        Size::Tiny => rng.below(8),
        Size::Small => rng.below(40),
        Size::Medium => rng.below(120),
        Size::Large => rng.below(400),
    };
    let ops = if f.p == 0 { ops.min(25) } else { ops };
    basis_changes(&mut c, rng, ops);
    c
}

/// e_j += c e_i for i before j in the same dimension; optionally rescale cells.
pub fn basis_changes(c: &mut Complex, rng: &mut Rng, ops: usize) {
    let f = c.f;
    let dims: Vec<Vec<usize>> = (0..=c.max_dim()).map(|d| c.in_dim(d)).collect();
    let wide: Vec<usize> = (0..dims.len()).filter(|d| dims[*d].len() >= 2).collect();
    if wide.is_empty() {
        return;
    }
    for _ in 0..ops {
        let d = *rng.pick(&wide);
        let a = rng.below(dims[d].len());
        let b = rng.below(dims[d].len());
        if a == b {
            continue;
        }
        let (i, j) = (dims[d][a.min(b)], dims[d][a.max(b)]);
        let x = if f.p == 0 { f.sign(rng) } else { f.unit(rng) };
        // new e_j = e_j + x e_i : column j += x column i
        let ci = c.cols[i].clone();
        axpy(&mut c.cols[j], x, &ci, f);
        // coordinates: coefficient of e_i in any chain decreases by x * coefficient of e_j
        for k in 0..c.n() {
            if c.dim[k] == d + 1 {
                if let Some(y) = c.cols[k].get(&j).copied() {
                    add_term(&mut c.cols[k], i, f.neg(f.mul(x, y)), f);
                }
            }
        }
    }
}

/// e_j := u_j e_j with random units.
pub fn rescale(c: &mut Complex, rng: &mut Rng) {
    let f = c.f;
    let u: Vec<Sc> = (0..c.n())
        .map(|_| {
            if f.p == 0 && rng.chance(2, 3) {
                f.sign(rng)
            } else {
                f.unit(rng)
            }
        })
        .collect();
    for j in 0..c.n() {
        let col: SVec<usize> = c.cols[j]
            .iter()
            .map(|(i, x)| (*i, f.mul(f.mul(*x, u[j]), f.inv(u[*i]))))
            .collect();
        c.cols[j] = col;
    }
}

pub fn relabel(c: &mut Complex, rng: &mut Rng) {
    let p = rng.perm(c.n());
    apply_perm(c, &p);
}

/// cell i gets id p[i]
pub fn apply_perm(c: &mut Complex, p: &[usize]) {
    let n = c.n();
    let mut dim = vec![0; n];
    let mut lvl = vec![0; n];
    let mut cols = vec![SVec::new(); n];
    for i in 0..n {
        dim[p[i]] = c.dim[i];
        lvl[p[i]] = c.lvl[i];
        cols[p[i]] = c.cols[i].iter().map(|(k, x)| (p[*k], *x)).collect();
    }
    c.dim = dim;
    c.lvl = lvl;
    c.cols = cols;
    if let Some(pl) = &mut c.planted {
        for (b, d) in pl.iter_mut() {
            *b = p[*b];
            *d = p[*d];
        }
    }
}

pub fn compress_levels(c: &mut Complex) {
    let used: BTreeSet<usize> = c.lvl.iter().copied().collect();
    let m: HashMap<usize, usize> = used.into_iter().enumerate().map(|(i, l)| (l, i)).collect();
    for l in c.lvl.iter_mut() {
        *l = m[l];
    }
}

fn assign_levels(c: &mut Complex, rng: &mut Rng) {
    let n = c.n();
    // faces before cofaces in dimension order
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|i| c.dim[*i]);
    let mode = rng.below(6);
    let k = match mode {
        0 => 1,
        1 => 2,
        2 => rng.range(2, 6),
        _ => 3 * n + 1,
    };
    for &i in &order {
        let base = c.cols[i].keys().map(|r| c.lvl[*r]).max().unwrap_or(0);
        c.lvl[i] = match mode {
            0 => 0,
            // lower star: cofaces inherit
            4 => {
                if c.dim[i] == 0 {
                    rng.below(k)
                } else {
                    base
                }
            }
            5 => c.dim[i],
            _ => base.max(rng.below(k)),
        };
    }
    if mode == 5 {
        for &i in &order {
            let base = c.cols[i].keys().map(|r| c.lvl[*r]).max().unwrap_or(0);
            c.lvl[i] = c.lvl[i].max(base);
        }
    }
    compress_levels(c);
}

fn random_simplicial(f: Fld, rng: &mut Rng, size: Size) -> Complex {
    let (n, tops, maxd) = match size {
        Size::Tiny => (rng.range(1, 4), rng.range(1, 4), 2),
        Size::Small => (rng.range(3, 7), rng.range(2, 9), 3),
        Size::Medium => (rng.range(6, 11), rng.range(5, 24), 4),
        Size::Large => (rng.range(10, 18), rng.range(20, 60), 5),
    };
    let mut t = vec![];
    for _ in 0..tops {
        let k = rng.range(1, (maxd + 1).min(n));
        t.push(rng.subset(n, k));
    }
    from_simplices(f, &t, "simplicial")
}

/// Complexes far beyond the ordinary sizes, sparse enough to stay cheap: columns that need more than
/// a thousand additions, columns with more than a thousand entries, more than 2^16 cells.
fn huge(f: Fld, rng: &mut Rng, one_level: bool) -> Complex {
    let mut c = match rng.below(4) {
        0 => {
            // a long cycle closed by its last edge, in an order in which the closing column is
            // reduced by every other one
            let n = rng.range(1100, 3000);
            let mut e: Vec<(usize, usize)> = (0..n - 1).map(|i| (i, i + 1)).collect();
            e.push((n - 1, 0));
            graph(f, n, &e, "huge cycle")
        }
        1 => {
            // the same in an arbitrary order
            let n = rng.range(1100, 3000);
            let e: Vec<(usize, usize)> = (0..n).map(|i| (i, (i + 1) % n)).collect();
            let mut c = graph(f, n, &e, "huge shuffled cycle");
            relabel(&mut c, rng);
            c
        }
        2 => {
            // one cell glued to everything: a column with thousands of entries
            let n = rng.range(1100, 4000);
            let mut e: Vec<(usize, usize)> = (0..n - 1).map(|i| (i, i + 1)).collect();
            e.push((n - 1, 0));
            let mut c = graph(f, n, &e, "huge disc");
            let mut col = SVec::new();
            for i in 0..n {
                col.insert(n + i, f.int(1));
            }
            c.cols.push(col);
            c.dim.push(2);
            c.lvl.push(0);
            c
        }
        _ => {
            // more than 2^16 cells: short paths side by side
            let k = 3 + rng.below(4);
            let n = 66_000 / (2 * k - 1) * k + k * rng.below(200);
            let n = n / k * k;
            let e: Vec<(usize, usize)> = (0..n - 1)
                .filter(|i| i % k != k - 1)
                .map(|i| (i, i + 1))
                .collect();
            let mut c = graph(f, n, &e, "more than 2^16 cells");
            if rng.chance(1, 2) {
                relabel(&mut c, rng);
            }
            c
        }
    };
    if !one_level && rng.chance(1, 2) {
        // few levels, the same for every component
        let k = rng.range(2, 50);
        for i in 0..c.n() {
            c.lvl[i] = if c.dim[i] == 0 { 0 } else { rng.below(k) };
        }
        // relabelled complexes list cofaces before faces: make it a filtration dimension by dimension
        for d in 1..=c.max_dim() {
            for i in 0..c.n() {
                if c.dim[i] == d {
                    let base = c.cols[i].keys().map(|r| c.lvl[*r]).max().unwrap_or(0);
                    c.lvl[i] = c.lvl[i].max(base);
                }
            }
        }
        compress_levels(&mut c);
    }
    if rng.chance(1, 2) {
        rescale(&mut c, rng);
    }
    c
}

/// Every column is reduced by all the earlier ones: the work doubles with each column unless results are combined.
fn staircase(f: Fld, rng: &mut Rng, one_level: bool) -> Complex {
    let k = rng.range(12, 22);
    let below = rng.below(3);
    let ones = f.p == 0 || rng.chance(1, 2);
    let mut c = graph(f, 2 * k, &[], "staircase");
    for j in 0..k {
        let mut col = SVec::new();
        for i in k - 1 - j..k {
            col.insert(i, if ones { f.int(1) } else { f.unit(rng) });
        }
        c.cols[k + j] = col;
        c.dim[k + j] = below + 1;
        c.dim[j] = below;
    }
    if !one_level {
        match rng.below(3) {
            0 => {}
            1 => c.lvl = (0..2 * k).collect(),
            _ => c.lvl = c.dim.iter().map(|d| d - below).collect(),
        }
    }
    c
}

/// A filtered chain complex over Z/p (p = 0: Q). `one_level`: every cell gets filtration level 0.
pub fn complex(rng: &mut Rng, p: u32, size: Size, one_level: bool) -> Complex {
    let f = Fld { p };
    if size == Size::Large && rng.chance(1, 12) {
        return huge(f, rng, one_level);
    }
    if size != Size::Tiny && rng.chance(1, 40) {
        return staircase(f, rng, one_level);
    }
    let mut c = match rng.below(20) {
        0..=5 => random_simplicial(f, rng, size),
        6..=10 => planted(f, rng, size),
        11 => match rng.below(5) {
            0 => from_simplices(f, &RP2.map(|t| t.to_vec()), "RP2"),
            1 => grid_surface(f, true, "Klein bottle"),
            2 => grid_surface(f, false, "torus"),
            3 => {
                // two copies of RP2 sharing a vertex
                let mut t: Vec<Vec<usize>> = RP2.iter().map(|t| t.to_vec()).collect();
                t.extend(RP2.iter().map(|t| {
                    t.iter()
                        .map(|v| if *v == 0 { 0 } else { v + 10 })
                        .collect()
                }));
                from_simplices(f, &t, "RP2 v RP2")
            }
            _ => {
                let n = rng.range(3, 6);
                // boundary of a simplex: sphere
                let t: Vec<Vec<usize>> = (0..n)
                    .map(|i| (0..n).filter(|j| *j != i).collect())
                    .collect();
                from_simplices(f, &t, "sphere")
            }
        },
        12 | 13 => moore(f, rng),
        14 => match size {
            Size::Tiny => cubical(f, &[rng.range(1, 3)]),
            Size::Small => cubical(f, &[rng.range(1, 3), rng.range(1, 3)]),
            Size::Medium => cubical(f, &[2, 3, rng.range(1, 3)]),
            Size::Large => cubical(f, &[4, 4, 3]),
        },
        15 => {
            let n = match size {
                Size::Tiny => 2,
                Size::Small => rng.range(3, 7),
                Size::Medium => rng.range(8, 14),
                Size::Large => rng.range(15, 22),
            };
            let mut e = vec![];
            for a in 0..n {
                for b in a + 1..n {
                    e.push((a, b));
                }
            }
            graph(f, n, &e, "complete graph")
        }
        16 => {
            let n = match size {
                Size::Tiny => 3,
                Size::Small => rng.range(4, 12),
                Size::Medium => rng.range(20, 60),
                Size::Large => rng.range(100, 300),
            };
            let e: Vec<(usize, usize)> = match rng.below(3) {
                0 => (0..n).map(|i| (i, (i + 1) % n)).collect(),
                1 => (1..n).map(|i| (0, i)).chain((1..n).map(|i| (i, 0))).collect(),
                _ => (0..2 * n).map(|_| (rng.below(n), rng.below(n))).collect(),
            };
            graph(f, n, &e, "sparse graph")
        }
        17 => {
            let k = match size {
                Size::Tiny => 2,
                Size::Small => rng.range(3, 5),
                Size::Medium => 6,
                Size::Large => 8,
            };
            from_simplices(f, &[(0..k).collect()], "full simplex")
        }
        18 => {
            // degenerate
            match rng.below(4) {
                0 => graph(f, 0, &[], "empty"),
                1 => graph(f, 1, &[], "point"),
                2 => {
                    let n = rng.range(1, 12);
                    let mut c = graph(f, n, &[], "zero differential");
                    for d in c.dim.iter_mut() {
                        *d = rng.below(4);
                    }
                    c
                }
                _ => graph(f, 1, &[(0, 0), (0, 0), (0, 0)], "loops"),
            }
        }
        _ => {
            // dimension gap: cells only in dimensions 0 and 3,4, or much higher ones
            let mut c = moore(f, rng);
            let up = match rng.below(8) {
                0..=2 if size == Size::Tiny => rng.range(3, 12),
                0 => rng.range(250, 300),
                1 | 2 => rng.range(14, 70),
                _ => 2,
            };
            for d in c.dim.iter_mut() {
                if *d > 0 {
                    *d += up
                }
            }
            c.kind = "dimension gap";
            c
        }
    };
    if c.planted.is_none() {
        assign_levels(&mut c, rng);
        if rng.chance(5, 6) {
            relabel(&mut c, rng);
        }
        if rng.chance(1, 3) {
            let ops = rng.below(1 + (2 * c.n()).min(if p == 0 { 15 } else { 60 }));
            basis_changes(&mut c, rng, ops);
        }
    }
    if rng.chance(1, 2) {
        rescale(&mut c, rng);
    }
    if one_level {
        c.lvl = vec![0; c.n()];
        // the planted pairs hold for another order only
        c.planted = None;
    }
    c
}

/// An arbitrary sparse square matrix (not a differential): columns over 0..n.
pub fn arbitrary_square(rng: &mut Rng, p: u32, size: Size, one_level: bool) -> Complex {
    let f = Fld { p };
    if size != Size::Tiny && rng.chance(1, 40) {
        return staircase(f, rng, one_level);
    }
    let n = match size {
        Size::Tiny => rng.below(5),
        Size::Small => rng.range(3, 14),
        Size::Medium => rng.range(15, 45),
        Size::Large => rng.range(50, 110),
    };
    let n = if p == 0 { n.min(12) } else { n };
    let dens = rng.range(1, 6.min(n.max(1)));
    let cols = (0..n)
        .map(|_| {
            let k = rng.below(dens + 1);
            lincomb(
                (0..k)
                    .map(|_| (rng.below(n), if p == 0 { f.sign(rng) } else { f.unit(rng) }))
                    .collect::<Vec<_>>(),
                f,
            )
        })
        .collect();
    let k = if one_level { 1 } else { rng.range(1, n.max(1)) };
    let mut c = Complex {
        f,
        dim: vec![0; n],
        lvl: (0..n).map(|_| rng.below(k)).collect(),
        cols,
        planted: None,
        kind: "arbitrary square",
    };
    compress_levels(&mut c);
    c
}

/// Oracle self check: the two independent reference pairings and the planted pairs agree.
pub fn self_check() {
    for p in [0u32, 2, 3, 4, 5, 7, 11, 13, 2147483647] {
        for s in 0..12u64 {
            let mut rng = Rng::new(&[777, p as u64, s]);
            let c = complex(&mut rng, p, Size::Tiny, s % 4 == 3);
            c.check_square_zero();
            if c.n() > 14 {
                continue;
            }
            let (pairs, _) = c.pairing();
            let rank = c.row_rank();
            let mut by_rank = BTreeSet::new();
            for d in 0..=c.max_dim() {
                by_rank.extend(pairs_by_ranks(&c.cols, &c.in_dim(d), &rank, c.n(), c.f));
            }
            assert_eq!(pairs, by_rank, "reference pairings disagree: {}", c.brief());
        }
        for s in 0..10u64 {
            let mut rng = Rng::new(&[778, p as u64, s]);
            let c = planted(Fld { p }, &mut rng, if s < 5 { Size::Tiny } else { Size::Small });
            c.check_square_zero();
            let (pairs, _) = c.pairing();
            let pl: BTreeSet<_> = c.planted.clone().unwrap().into_iter().collect();
            assert_eq!(pairs, pl, "planted pairs differ: {}", c.brief());
        }
        for (s, size) in [(1, Size::Medium), (2, Size::Large), (3, Size::Large)] {
            let mut rng = Rng::new(&[779, p as u64, s]);
            let c = complex(&mut rng, p, size, false);
            c.check_square_zero();
        }
    }
}
