//! Monitored matrix oracle: a user-style MatrixOracle + HasRowFiltration + HasColBasis whose every
//! request is logged, with a logical step budget that turns non-termination into a verdict.
use crate::algebra::*;
use crate::driver::viol;
use crate::field::{Fld, TField};
use crate::gen::Complex;
use crate::labels::{TFil, TLabel};
use crate::rng::Rng;
use phlite::columns::ColumnEntry;
use phlite::matrices::{BasisElement, ColBasis, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SubBasis<L>(pub Vec<L>);

impl<L: BasisElement + Copy + Debug> ColBasis for SubBasis<L> {
    type ElemT = L;
    fn element(&self, index: usize) -> L {
        match self.0.get(index) {
            Some(l) => *l,
            None => viol(format!(
                "position {index} requested from a sub-basis of size {}",
                self.0.len()
            )),
        }
    }
    fn size(&self) -> usize {
        self.0.len()
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DimBasis<L> {
    pub subs: Vec<SubBasis<L>>,
    pub flat: Vec<L>,
}

impl<L: BasisElement + Copy + Debug> ColBasis for DimBasis<L> {
    type ElemT = L;
    fn element(&self, index: usize) -> L {
        match self.flat.get(index) {
            Some(l) => *l,
            None => viol(format!(
                "position {index} requested from a basis of size {}",
                self.flat.len()
            )),
        }
    }
    fn size(&self) -> usize {
        self.flat.len()
    }
}

impl<L: BasisElement + Copy + Debug> SplitByDimension for DimBasis<L> {
    type SubBasisT = SubBasis<L>;
    fn in_dimension(&self, dimension: usize) -> &SubBasis<L> {
        match self.subs.get(dimension) {
            Some(s) => s,
            None => viol(format!(
                "dimension {dimension} requested from a basis with {} dimensions",
                self.subs.len()
            )),
        }
    }
}

/// A concrete presentation of a complex (boundary or coboundary) with labels and filtration values.
pub struct Case<L, F> {
    pub cx: Complex,
    pub labels: Vec<L>,
    pub fvals: Vec<F>,
    pub id_of: HashMap<L, usize>,
}

impl<L: TLabel, F: TFil> Case<L, F> {
    pub fn new(cx: Complex, rng: &mut Rng) -> Self {
        let labels = L::table(cx.n(), rng);
        let fvals = F::table(cx.nlvl(), rng);
        debug_assert!(labels.windows(2).all(|w| w[0] < w[1]));
        debug_assert!(fvals.windows(2).all(|w| w[0] < w[1]));
        let id_of = labels.iter().copied().enumerate().map(|(i, l)| (l, i)).collect();
        Case {
            cx,
            labels,
            fvals,
            id_of,
        }
    }
    pub fn id(&self, l: L) -> usize {
        match self.id_of.get(&l) {
            Some(i) => *i,
            None => viol(format!("label {l:?} is not a basis element of the input")),
        }
    }
    pub fn fval(&self, id: usize) -> F {
        self.fvals[self.cx.lvl[id]]
    }
    /// Basis sorted by (filtration, label) in each dimension; flat order either concatenated
    /// or globally sorted.
    pub fn basis(&self, concatenated: bool) -> DimBasis<L> {
        let subs: Vec<SubBasis<L>> = (0..=self.cx.max_dim())
            .map(|d| SubBasis(self.cx.in_dim(d).into_iter().map(|i| self.labels[i]).collect()))
            .collect();
        let flat = if concatenated {
            subs.iter().flat_map(|s| s.0.iter().copied()).collect()
        } else {
            let mut v: Vec<usize> = (0..self.cx.n()).collect();
            v.sort_by_key(|i| (self.cx.lvl[*i], *i));
            v.into_iter().map(|i| self.labels[i]).collect()
        };
        DimBasis { subs, flat }
    }
    /// The same with an entry for every dimension 0..=md, also empty ones.
    pub fn basis_padded(&self, concatenated: bool, md: usize) -> DimBasis<L> {
        let mut b = self.basis(concatenated);
        while b.subs.len() <= md {
            b.subs.push(SubBasis(vec![]));
        }
        b
    }
    /// Presentation of given columns (by id).
    pub fn present<CF: TField>(
        &self,
        cols: &[SVec<usize>],
        style: Style,
        rng: &mut Rng,
    ) -> Vec<Vec<(CF, L)>> {
        cols.iter()
            .map(|c| present_col::<CF, usize>(c, style, self.labels.len(), rng, |r| r.below(self.labels.len())))
            .map(|v| v.into_iter().map(|(x, i)| (x, self.labels[i])).collect())
            .collect()
    }
    pub fn oracle<CF: TField>(
        &self,
        cols: &[SVec<usize>],
        basis: DimBasis<L>,
        style: Style,
        rng: &mut Rng,
    ) -> Mat<CF, L, F> {
        Mat::new(
            self.labels.clone(),
            (0..self.cx.n()).map(|i| self.fval(i)).collect(),
            self.present::<CF>(cols, style, rng),
            basis,
        )
    }
    /// Decode a list of library terms into a reference vector over ids.
    pub fn dec<CF: TField>(&self, it: impl IntoIterator<Item = (CF, L)>) -> SVec<usize> {
        dec_ids(it, |l| self.id(l))
    }
}

pub fn dec_ids<CF: TField, L>(
    it: impl IntoIterator<Item = (CF, L)>,
    id: impl Fn(L) -> usize,
) -> SVec<usize> {
    let f = CF::fld();
    let mut v = SVec::new();
    for (c, l) in it {
        add_term(&mut v, id(l), c.dec(), f);
    }
    v
}

/// Decode library terms over any ordered key.
pub fn dec_keys<CF: TField, L: Ord>(it: impl IntoIterator<Item = (CF, L)>) -> SVec<L> {
    let f = CF::fld();
    let mut v = SVec::new();
    for (c, l) in crate::read::drain(it.into_iter()) {
        add_term(&mut v, l, c.dec(), f);
    }
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style {
    Ascending,
    Descending,
    Shuffled,
    /// split coefficients over repeated rows
    Split,
    /// split, plus terms that cancel (also in rows that are zero in total)
    Cancelling,
}

impl Style {
    pub fn draw(rng: &mut Rng) -> Style {
        *rng.pick(&[
            Style::Ascending,
            Style::Descending,
            Style::Shuffled,
            Style::Split,
            Style::Cancelling,
        ])
    }
}

pub fn present_col<CF: TField, K: Ord + Clone>(
    c: &SVec<K>,
    style: Style,
    n_rows: usize,
    rng: &mut Rng,
    any_row: impl Fn(&mut Rng) -> K,
) -> Vec<(CF, K)> {
    let f: Fld = CF::fld();
    let mut v: Vec<(crate::field::Sc, K)> = c.iter().map(|(k, x)| (*x, k.clone())).collect();
    match style {
        Style::Ascending => {}
        Style::Descending => v.reverse(),
        Style::Shuffled => rng.shuffle(&mut v),
        Style::Split | Style::Cancelling => {
            let mut w = vec![];
            for (x, k) in v {
                // split x = a + (x - a), keeping both parts non-zero
                let a = f.unit(rng);
                let b = f.sub(x, a);
                if rng.chance(1, 2) && !f.is_zero(b) {
                    w.push((a, k.clone()));
                    w.push((b, k));
                } else if rng.chance(1, 3) {
                    let na = f.neg(a);
                    w.push((x, k.clone()));
                    w.push((a, k.clone()));
                    w.push((na, k));
                } else {
                    w.push((x, k));
                }
            }
            if style == Style::Cancelling && n_rows > 0 {
                for _ in 0..rng.below(4) {
                    let k = any_row(rng);
                    let a = f.unit(rng);
                    w.push((a, k.clone()));
                    w.push((f.neg(a), k));
                }
            }
            rng.shuffle(&mut w);
            v = w;
        }
    }
    v.into_iter().map(|(x, k)| (CF::enc(x), k)).collect()
}

pub struct Mat<CF, L, F> {
    pub labels: Vec<L>,
    index: HashMap<L, usize>,
    pub fil: Vec<F>,
    pub cols: Vec<Vec<(CF, L)>>,
    pub basis: DimBasis<L>,
    /// rows occurring in some column
    occurs: Vec<bool>,
    pub log: Log,
}

#[derive(Default)]
pub struct Log {
    /// times each column was requested
    pub col_calls: RefCell<Vec<u64>>,
    /// sequence of requested column ids (capped)
    pub seq: RefCell<Vec<u32>>,
    pub entries: Cell<u64>,
    pub requests: Cell<u64>,
    pub fil_calls: Cell<u64>,
    pub fil_stray: Cell<u64>,
    pub budget: Cell<u64>,
    /// ids that may be requested (None: any)
    pub allowed: RefCell<Option<Vec<bool>>>,
    pub strict: Cell<bool>,
}

impl<CF: TField, L: TLabel, F: TFil> Mat<CF, L, F> {
    pub fn new(
        labels: Vec<L>,
        fil: Vec<F>,
        cols: Vec<Vec<(CF, L)>>,
        basis: DimBasis<L>,
    ) -> Self {
        let index: HashMap<L, usize> =
            labels.iter().copied().enumerate().map(|(i, l)| (l, i)).collect();
        let mut occurs = vec![false; labels.len()];
        for c in &cols {
            for (_, l) in c {
                occurs[index[l]] = true;
            }
        }
        let log = Log::default();
        log.col_calls.replace(vec![0; labels.len()]);
        log.budget.set(u64::MAX);
        log.strict.set(true);
        Mat {
            labels,
            index,
            fil,
            cols,
            basis,
            occurs,
            log,
        }
    }
    pub fn id(&self, l: L) -> usize {
        match self.index.get(&l) {
            Some(i) => *i,
            None => viol(format!("request for {l:?}, which is no basis element")),
        }
    }
    fn step(&self, k: u64) {
        let b = self.log.budget.get();
        if b < k {
            viol("step budget exhausted: the number of column entries read exceeds the polynomial bound (non-termination)".into());
        }
        self.log.budget.set(b - k);
    }
    pub fn reset_log(&self) {
        for x in self.log.col_calls.borrow_mut().iter_mut() {
            *x = 0;
        }
        self.log.seq.borrow_mut().clear();
        self.log.entries.set(0);
        self.log.requests.set(0);
        self.log.fil_calls.set(0);
        self.log.fil_stray.set(0);
        *self.log.allowed.borrow_mut() = None;
        self.log.budget.set(u64::MAX);
    }
    /// Logical bound for one reduction of this matrix: every column j is reduced by at most as many
    /// additions as there are possible pivots, every addition reads at most n columns of D.
    /// (n columns, r rows, m entries in the longest column; factor 8 for reading off and checks.)
    pub fn poly_budget(&self) -> u64 {
        let n = self.labels.len() as u64;
        let m = self.cols.iter().map(|c| c.len()).max().unwrap_or(0) as u64 + 1;
        8 * (n + 2) * (n + 2) * (n + 2) * m + 10_000
    }
    pub fn request_bound(&self) -> u64 {
        let n = self.labels.len() as u64;
        8 * (n + 2) * (n + 2) * (n + 2)
    }
}

pub struct MonIter<'a, CF, L, F> {
    m: &'a Mat<CF, L, F>,
    col: usize,
    pos: usize,
    hint: u64,
}
impl<CF: TField, L: TLabel, F: TFil> Iterator for MonIter<'_, CF, L, F> {
    type Item = (CF, L);
    fn next(&mut self) -> Option<(CF, L)> {
        let x = self.m.cols[self.col].get(self.pos).copied();
        self.pos += 1;
        self.m.log.entries.set(self.m.log.entries.get() + 1);
        self.m.step(1);
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let k = self.m.cols[self.col].len().saturating_sub(self.pos);
        crate::read::hint(k, self.hint)
    }
}

impl<CF: TField, L: TLabel, F: TFil> MatrixOracle for Mat<CF, L, F> {
    type CoefficientField = CF;
    type ColT = L;
    type RowT = L;
    fn column(&self, col: L) -> impl Iterator<Item = (CF, L)> {
        let id = self.id(col);
        self.log.col_calls.borrow_mut()[id] += 1;
        self.log.requests.set(self.log.requests.get() + 1);
        let mut s = self.log.seq.borrow_mut();
        if s.len() < 100_000 {
            s.push(id as u32);
        }
        drop(s);
        self.step(1);
        if let Some(a) = &*self.log.allowed.borrow() {
            if !a[id] {
                viol(format!(
                    "column of cell {id} ({col:?}) requested although it may not be asked for here"
                ));
            }
        }
        MonIter {
            m: self,
            col: id,
            pos: 0,
            hint: crate::read::hint_style(),
        }
    }
}

impl<CF: TField, L: TLabel, F: TFil> HasRowFiltration for Mat<CF, L, F> {
    type FiltrationT = F;
    fn filtration_value(&self, row: L) -> F {
        let id = self.id(row);
        self.log.fil_calls.set(self.log.fil_calls.get() + 1);
        if !self.occurs[id] {
            self.log.fil_stray.set(self.log.fil_stray.get() + 1);
        }
        self.step(1);
        self.fil[id]
    }
}

impl<CF: TField, L: TLabel, F: TFil> HasColBasis for Mat<CF, L, F> {
    type BasisT = DimBasis<L>;
    type BasisRef<'a>
        = &'a DimBasis<L>
    where
        Self: 'a;
    fn basis(&self) -> &DimBasis<L> {
        &self.basis
    }
}

/// Everything a matrix says about one column, in reference terms.
pub fn read_col<M>(m: &M, col: M::ColT) -> BTreeMap<M::RowT, crate::field::Sc>
where
    M: MatrixOracle,
    M::CoefficientField: TField,
{
    dec_keys(m.column(col))
}

/// Column read with filtration values, as a reference vector, together with all (row, value) pairs.
pub fn read_col_fil<M>(
    m: &M,
    col: M::ColT,
) -> (BTreeMap<M::RowT, crate::field::Sc>, Vec<(M::RowT, M::FiltrationT)>)
where
    M: HasRowFiltration,
    M::CoefficientField: TField,
{
    let f = M::CoefficientField::fld();
    let mut v = BTreeMap::new();
    let mut fs = vec![];
    for e in m.column_with_filtration(col) {
        let ColumnEntry {
            filtration_value,
            row_index,
            coeff,
        } = e;
        fs.push((row_index.clone(), filtration_value));
        add_term(&mut v, row_index, coeff.dec(), f);
    }
    (v, fs)
}
