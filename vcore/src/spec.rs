//! Specification of a matrix as plain data, type-erased user oracles built from it, and the
//! observer that compares every matrix view against its specification.
use crate::algebra::*;
use crate::driver::{viol, Ctx};
use crate::field::TField;
use crate::gen::{self, Size};
use crate::labels::{TFil, TLabel};
use crate::mon::{dec_keys, present_col, DimBasis, Style, SubBasis};
use crate::rng::Rng;
use phlite::columns::ColumnEntry;
use phlite::matrices::{
    BasisElement, ColBasis, FiltrationValue, HasColBasis, HasRowFiltration, MatrixOracle,
    SplitByDimension,
};
use std::cmp::Reverse;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::ops::Deref;
use std::rc::Rc;

pub trait El: BasisElement + Copy + Debug + 'static {}
impl<T: BasisElement + Copy + Debug + 'static> El for T {}
pub trait Fv: FiltrationValue + Copy + Debug + 'static {}
impl<T: FiltrationValue + Copy + Debug + 'static> Fv for T {}

/// What a matrix is.
#[derive(Clone, Debug)]
pub struct Spec<C: Ord, R: Ord, F> {
    pub cols: BTreeMap<C, SVec<R>>,
    pub fil: BTreeMap<R, F>,
    pub flat: Vec<C>,
    pub subs: Vec<Vec<C>>,
}

impl<C: El, R: El, F: Fv> Spec<C, R, F> {
    pub fn rev(&self) -> Spec<Reverse<C>, Reverse<R>, Reverse<F>> {
        Spec {
            cols: self
                .cols
                .iter()
                .map(|(c, v)| (Reverse(*c), v.iter().map(|(r, x)| (Reverse(*r), *x)).collect()))
                .collect(),
            fil: self.fil.iter().map(|(r, f)| (Reverse(*r), Reverse(*f))).collect(),
            flat: self.flat.iter().rev().map(|c| Reverse(*c)).collect(),
            subs: self
                .subs
                .iter()
                .map(|s| s.iter().rev().map(|c| Reverse(*c)).collect())
                .collect(),
        }
    }
    pub fn with_fil<G: Fv>(&self, fil: BTreeMap<R, G>) -> Spec<C, R, G> {
        Spec {
            cols: self.cols.clone(),
            fil,
            flat: self.flat.clone(),
            subs: self.subs.clone(),
        }
    }
    pub fn trivial(&self) -> Spec<C, R, ()> {
        self.with_fil(self.fil.keys().map(|r| (*r, ())).collect())
    }
    pub fn with_bases(&self, flat: Vec<C>, subs: Vec<Vec<C>>) -> Self {
        Spec {
            cols: self.cols.clone(),
            fil: self.fil.clone(),
            flat,
            subs,
        }
    }
    /// Keep only some columns (what is compared from here on).
    pub fn restrict(&self, keep: impl Fn(&C) -> bool) -> Self {
        Spec {
            cols: self.cols.iter().filter(|(c, _)| keep(c)).map(|(c, v)| (*c, v.clone())).collect(),
            ..self.clone()
        }
    }
    pub fn dim_basis(&self) -> DimBasis<C> {
        DimBasis {
            subs: self.subs.iter().map(|s| SubBasis(s.clone())).collect(),
            flat: self.flat.clone(),
        }
    }
    pub fn brief(&self) -> String {
        let s = format!("basis {:?} subs {:?} fil {:?} cols {:?}", self.flat, self.subs, self.fil, self.cols);
        s.chars().take(1200).collect()
    }
}

/// A user-defined matrix: plain columns, annotated columns and filtration values behind closures.
pub struct Dyn<CF, C, R, F> {
    pub col: Rc<dyn Fn(C) -> Vec<(CF, R)>>,
    pub ann: Rc<dyn Fn(C) -> Vec<(F, R, CF)>>,
    pub fv: Rc<dyn Fn(R) -> F>,
    pub basis: Rc<DimBasis<C>>,
}
impl<CF, C, R, F> Clone for Dyn<CF, C, R, F> {
    fn clone(&self) -> Self {
        Dyn {
            col: self.col.clone(),
            ann: self.ann.clone(),
            fv: self.fv.clone(),
            basis: self.basis.clone(),
        }
    }
}

impl<CF: TField, C: El, R: El, F: Fv> Dyn<CF, C, R, F> {
    /// The annotated columns list the terms in another way than the plain ones.
    pub fn from_spec(s: &Spec<C, R, F>, a: Style, b: Style, rng: &mut Rng) -> Self {
        let rows: Vec<R> = s.fil.keys().copied().collect();
        let mut pres = |st: Style| -> BTreeMap<C, Vec<(CF, R)>> {
            s.cols
                .iter()
                .map(|(c, v)| {
                    (*c, present_col::<CF, R>(v, st, rows.len(), rng, |r| *r.pick(&rows)))
                })
                .collect()
        };
        let (p, q) = (pres(a), pres(b));
        let (f1, f2) = (s.fil.clone(), s.fil.clone());
        let get = |m: &BTreeMap<C, Vec<(CF, R)>>, c: C| match m.get(&c) {
            Some(v) => v.clone(),
            None => viol(format!("column {c:?} requested, which is no column of the input")),
        };
        Dyn {
            col: Rc::new(move |c| get(&p, c)),
            ann: Rc::new(move |c| get(&q, c).into_iter().map(|(x, r)| (f1[&r], r, x)).collect()),
            fv: Rc::new(move |r| match f2.get(&r) {
                Some(f) => *f,
                None => viol(format!("filtration of {r:?} requested, which is no row of the input")),
            }),
            basis: Rc::new(s.dim_basis()),
        }
    }
    /// Erase a concrete matrix; the basis is read out through the library.
    pub fn erase<M>(m: M, n_dims: usize) -> Self
    where
        M: HasRowFiltration<CoefficientField = CF, ColT = C, RowT = R, FiltrationT = F>
            + HasColBasis<BasisT: SplitByDimension>
            + 'static,
    {
        let basis = {
            let b = m.basis();
            DimBasis {
                subs: (0..n_dims).map(|d| SubBasis(read_basis(b.in_dimension(d)))).collect(),
                flat: read_basis(&*b),
            }
        };
        Self::erase_with(m, Rc::new(basis))
    }
    pub fn erase_with<M>(m: M, basis: Rc<DimBasis<C>>) -> Self
    where
        M: HasRowFiltration<CoefficientField = CF, ColT = C, RowT = R, FiltrationT = F> + 'static,
    {
        let m = Rc::new(m);
        let (m1, m2, m3) = (m.clone(), m.clone(), m);
        Dyn {
            col: Rc::new(move |c| m1.column(c).collect()),
            ann: Rc::new(move |c| {
                m2.column_with_filtration(c)
                    .map(|e| (e.filtration_value, e.row_index, e.coeff))
                    .collect()
            }),
            fv: Rc::new(move |r| m3.filtration_value(r)),
            basis,
        }
    }
}

pub fn read_basis<B: ColBasis>(b: &B) -> Vec<B::ElemT> {
    (0..b.size()).map(|i| b.element(i)).collect()
}

impl<CF: TField, C: El, R: El, F: Fv> MatrixOracle for Dyn<CF, C, R, F> {
    type CoefficientField = CF;
    type ColT = C;
    type RowT = R;
    fn column(&self, col: C) -> impl Iterator<Item = (CF, R)> {
        crate::read::hinted((self.col)(col))
    }
}
impl<CF: TField, C: El, R: El, F: Fv> HasRowFiltration for Dyn<CF, C, R, F> {
    type FiltrationT = F;
    fn filtration_value(&self, row: R) -> F {
        (self.fv)(row)
    }
    fn column_with_filtration(&self, col: C) -> impl Iterator<Item = ColumnEntry<F, R, CF>> {
        crate::read::hinted((self.ann)(col)).map(|(f, r, x)| ColumnEntry {
            filtration_value: f,
            row_index: r,
            coeff: x,
        })
    }
}
impl<CF: TField, C: El, R: El, F: Fv> HasColBasis for Dyn<CF, C, R, F> {
    type BasisT = DimBasis<C>;
    type BasisRef<'a>
        = &'a DimBasis<C>
    where
        Self: 'a;
    fn basis(&self) -> &DimBasis<C> {
        &self.basis
    }
}

/// The same user matrix, handing out its basis through a shared pointer.
#[derive(Clone)]
pub struct RcBased<M>(pub M);
/// The same user matrix, handing out a freshly built basis every time.
#[derive(Clone)]
pub struct FreshBased<M>(pub M);

pub struct Owned<T>(pub Box<T>);
impl<T> Deref for Owned<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}

macro_rules! rebased {
    ($name:ident, $ref:ty, $me:ident, $make:expr) => {
        impl<CF: TField, C: El, R: El, F: Fv> MatrixOracle for $name<Dyn<CF, C, R, F>> {
            type CoefficientField = CF;
            type ColT = C;
            type RowT = R;
            fn column(&self, col: C) -> impl Iterator<Item = (CF, R)> {
                self.0.column(col)
            }
        }
        impl<CF: TField, C: El, R: El, F: Fv> HasRowFiltration for $name<Dyn<CF, C, R, F>> {
            type FiltrationT = F;
            fn filtration_value(&self, row: R) -> F {
                self.0.filtration_value(row)
            }
        }
        impl<CF: TField, C: El, R: El, F: Fv> HasColBasis for $name<Dyn<CF, C, R, F>> {
            type BasisT = DimBasis<C>;
            type BasisRef<'a>
                = $ref
            where
                Self: 'a;
            fn basis(&self) -> $ref {
                let $me = &self.0;
                $make
            }
        }
    };
}
rebased!(RcBased, Rc<DimBasis<C>>, d, d.basis.clone());
rebased!(FreshBased, Owned<DimBasis<C>>, d, Owned(Box::new((*d.basis).clone())));

/// Compares views with specifications.
pub struct Obs<'a> {
    pub ctx: &'a mut Ctx,
    /// Only check that annotated columns agree with plain ones and with the reported values.
    pub agreement_only: bool,
}

impl Obs<'_> {
    pub fn matrix<M>(&mut self, m: &M, cols: &BTreeMap<M::ColT, SVec<M::RowT>>, what: &str)
    where
        M: MatrixOracle<CoefficientField: TField, ColT: El, RowT: El>,
    {
        if self.agreement_only {
            return;
        }
        for (c, want) in cols {
            let items = crate::read::drain(m.column(*c));
            let n = items.len();
            let got = dec_keys(items);
            if got != *want {
                viol(format!("{what}: column {c:?} is {got:?}, expected {want:?}"));
            }
            if crate::read::hint_style() == 0 {
                let counted = m.column(*c).count();
                if counted != n {
                    viol(format!("{what}: column {c:?} yields {n} entries, but counts {counted}"));
                }
            }
        }
        self.ctx.add("columns_compared", cols.len() as u64);
    }
    /// Each row at most once, non-zero total.
    pub fn merged<M>(&mut self, m: &M, cols: &BTreeMap<M::ColT, SVec<M::RowT>>, what: &str)
    where
        M: MatrixOracle<CoefficientField: TField, ColT: El, RowT: El>,
    {
        if self.agreement_only {
            return;
        }
        for (c, want) in cols {
            let got: Vec<M::RowT> = crate::read::drain(m.column(*c)).into_iter().map(|(_, r)| r).collect();
            let mut seen = got.clone();
            seen.sort();
            if seen != want.keys().copied().collect::<Vec<_>>() {
                viol(format!("{what}: consolidated column {c:?} lists rows {got:?}, expected each of {:?} once", want.keys()));
            }
        }
        self.ctx.add("consolidated_columns", cols.len() as u64);
    }
    /// The same of the annotated column.
    pub fn merged_annotated<M>(&mut self, m: &M, cols: &BTreeMap<M::ColT, SVec<M::RowT>>, what: &str)
    where
        M: HasRowFiltration<CoefficientField: TField, ColT: El, RowT: El, FiltrationT: Fv>,
    {
        self.merged(m, cols, what);
        if self.agreement_only {
            return;
        }
        for (c, want) in cols {
            let got: Vec<M::RowT> =
                crate::read::drain(m.column_with_filtration(*c)).into_iter().map(|e| e.row_index).collect();
            let mut seen = got.clone();
            seen.sort();
            if seen != want.keys().copied().collect::<Vec<_>>() {
                viol(format!(
                    "{what}: consolidated column {c:?}, read with filtration, lists rows {got:?}, expected each of {:?} once",
                    want.keys()
                ));
            }
        }
        self.ctx.add("annotated_consolidated_columns", cols.len() as u64);
    }
    pub fn filtered<M>(
        &mut self,
        m: &M,
        cols: &BTreeMap<M::ColT, SVec<M::RowT>>,
        fil: &BTreeMap<M::RowT, M::FiltrationT>,
        what: &str,
    ) where
        M: HasRowFiltration<CoefficientField: TField, ColT: El, RowT: El, FiltrationT: Fv>,
    {
        self.matrix(m, cols, what);
        if !self.agreement_only {
            for (r, f) in fil {
                let got = m.filtration_value(*r);
                if got != *f {
                    viol(format!("{what}: filtration of {r:?} is {got:?}, expected {f:?}"));
                }
            }
            self.ctx.add("filtration_values_compared", fil.len() as u64);
        }
        for (c, want) in cols {
            self.agree(m, *c, (!self.agreement_only).then_some((want, fil)), what);
        }
    }
    /// The annotated column against the plain one, against reported values, and the specification.
    pub fn agree<M>(
        &mut self,
        m: &M,
        c: M::ColT,
        want: Option<(&SVec<M::RowT>, &BTreeMap<M::RowT, M::FiltrationT>)>,
        what: &str,
    ) where
        M: HasRowFiltration<CoefficientField: TField, ColT: El, RowT: El, FiltrationT: Fv>,
    {
        let ann: Vec<ColumnEntry<_, _, _>> = crate::read::drain(m.column_with_filtration(c));
        let got = dec_keys(ann.iter().map(|e| (e.coeff, e.row_index)));
        let plain = dec_keys(m.column(c));
        if got != plain {
            viol(format!("{what}: column {c:?} read with filtration is {got:?}, read plainly it is {plain:?}"));
        }
        for e in &ann {
            let f = m.filtration_value(e.row_index);
            if e.filtration_value != f {
                viol(format!("{what}: column {c:?} carries {:?} for row {:?}, whose filtration value is {f:?}",
                    e.filtration_value, e.row_index));
            }
        }
        self.ctx.add("annotated_entries_compared", ann.len() as u64);
        // the heap built from it: top entry is the largest (value, row)
        let mut h = m.build_bhcol(c);
        let pivot = h.pop_pivot().map(|e| (e.filtration_value, e.row_index, e.coeff.dec()));
        let top = plain
            .iter()
            .map(|(r, x)| (m.filtration_value(*r), *r, *x))
            .max_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
        if pivot != top {
            viol(format!("{what}: pivot of column {c:?} is {pivot:?}, expected {top:?}"));
        }
        if let Some((w, fil)) = want {
            if got != *w {
                viol(format!("{what}: column {c:?} read with filtration is {got:?}, expected {w:?}"));
            }
            for e in &ann {
                if e.filtration_value != fil[&e.row_index] {
                    viol(format!("{what}: column {c:?} carries {:?} for row {:?}, expected {:?}",
                        e.filtration_value, e.row_index, fil[&e.row_index]));
                }
            }
        }
    }
    pub fn flat<B: ColBasis<ElemT: El>>(&mut self, b: &B, want: &[B::ElemT], what: &str) {
        if self.agreement_only {
            return;
        }
        if b.size() != want.len() {
            viol(format!("{what}: basis has size {}, expected {}", b.size(), want.len()));
        }
        for (i, w) in want.iter().enumerate() {
            let g = b.element(i);
            if g != *w {
                viol(format!("{what}: basis position {i} holds {g:?}, expected {w:?}"));
            }
        }
        self.ctx.add("basis_positions_compared", want.len() as u64);
    }
    pub fn split<B: SplitByDimension<ElemT: El>>(
        &mut self,
        b: &B,
        flat: &[B::ElemT],
        subs: &[Vec<B::ElemT>],
        what: &str,
    ) {
        self.flat(b, flat, what);
        for (d, s) in subs.iter().enumerate() {
            self.flat(b.in_dimension(d), s, &format!("{what}.in_dimension({d})"));
        }
    }
    /// Columns, filtration and flat basis.
    pub fn based<M>(&mut self, m: &M, s: &Spec<M::ColT, M::RowT, M::FiltrationT>, what: &str)
    where
        M: HasRowFiltration<CoefficientField: TField, ColT: El, RowT: El, FiltrationT: Fv> + HasColBasis,
    {
        self.filtered(m, &s.cols, &s.fil, what);
        self.flat(&*m.basis(), &s.flat, what);
        self.ctx.add("views_compared", 1);
    }
    /// Columns, filtration, flat basis, sub-bases, and the sub-matrix of every dimension.
    pub fn all<M>(&mut self, m: &M, s: &Spec<M::ColT, M::RowT, M::FiltrationT>, what: &str)
    where
        M: HasRowFiltration<CoefficientField: TField, ColT: El, RowT: El, FiltrationT: Fv>
            + HasColBasis<BasisT: SplitByDimension>,
    {
        self.based(m, s, what);
        self.split(&*m.basis(), &s.flat, &s.subs, what);
        for (d, sub) in s.subs.iter().enumerate() {
            let v = m.sub_matrix_in_dimension(d);
            self.flat(&*v.basis(), sub, &format!("{what}.sub_matrix_in_dimension({d})"));
        }
    }
}

/// Random rectangular matrix specification.
pub fn random_spec<CF: TField, C: TLabel, R: TLabel, F: TFil>(rng: &mut Rng, size: Size) -> Spec<C, R, F> {
    let hi = match size {
        Size::Tiny => 4,
        Size::Small => 12,
        Size::Medium => 40,
        Size::Large => 150,
    };
    let (nc, nr) = (rng.range(1, hi), rng.range(1, hi));
    let cl = C::table(nc, rng);
    let rl = R::table(nr, rng);
    random_spec_on::<CF, C, R, F>(rng, &cl, &rl)
}

pub fn random_spec_on<CF: TField, C: TLabel, R: TLabel, F: TFil>(
    rng: &mut Rng,
    cl: &[C],
    rl: &[R],
) -> Spec<C, R, F> {
    let f = CF::fld();
    let (nc, nr) = (cl.len(), rl.len());
    let dense = rng.chance(1, 4);
    let cols = cl
        .iter()
        .map(|c| {
            let k = match rng.below(6) {
                0 => 0,
                1 => 1.min(nr),
                _ if dense => rng.below(nr + 1),
                _ => rng.below(nr.min(4) + 1),
            };
            (*c, rng.subset(nr, k).into_iter().map(|i| (rl[i], f.unit(rng))).collect())
        })
        .collect();
    let fil = random_fil::<R, F>(rng, rl);
    let (flat, subs) = random_basis(rng, cl, nc);
    Spec { cols, fil, flat, subs }
}

pub fn random_fil<R: TLabel, F: TFil>(rng: &mut Rng, rl: &[R]) -> BTreeMap<R, F> {
    let k = if F::TRIVIAL { 1 } else { rng.range(1, rl.len().max(1)) };
    let t = F::table(k, rng);
    rl.iter().map(|r| (*r, *rng.pick(&t))).collect()
}

/// Any choice of distinct column labels is a basis; it need not be sorted or complete.
pub fn random_basis<C: Copy>(rng: &mut Rng, cl: &[C], _n: usize) -> (Vec<C>, Vec<Vec<C>>) {
    let k = if rng.chance(1, 3) { rng.below(cl.len() + 1) } else { cl.len() };
    let mut idx = rng.subset(cl.len(), k);
    if rng.chance(2, 3) {
        rng.shuffle(&mut idx);
    } else {
        idx.sort();
    }
    let nd = rng.range(1, 4);
    let mut subs: Vec<Vec<C>> = vec![vec![]; nd];
    for i in &idx {
        subs[rng.below(nd)].push(cl[*i]);
    }
    let flat = if rng.chance(1, 2) {
        subs.concat()
    } else {
        idx.iter().map(|i| cl[*i]).collect()
    };
    (flat, subs)
}

/// Specification of a filtered complex (square).
pub fn complex_spec<CF: TField, L: TLabel, F: TFil>(rng: &mut Rng, size: Size) -> Spec<L, L, F> {
    let cx = gen::complex(rng, CF::P, size, F::TRIVIAL);
    let labels = L::table(cx.n(), rng);
    let fv = F::table(cx.nlvl(), rng);
    let cob = rng.chance(1, 2);
    let cols = if cob { cx.coboundary_cols() } else { cx.cols.clone() };
    Spec {
        cols: cols
            .iter()
            .enumerate()
            .map(|(j, c)| (labels[j], c.iter().map(|(i, x)| (labels[*i], *x)).collect()))
            .collect(),
        fil: (0..cx.n()).map(|i| (labels[i], fv[cx.lvl[i]])).collect(),
        subs: (0..=cx.max_dim())
            .map(|d| cx.in_dim(d).into_iter().map(|i| labels[i]).collect())
            .collect(),
        flat: {
            let mut v: Vec<usize> = (0..cx.n()).collect();
            v.sort_by_key(|i| (cx.dim[*i], cx.lvl[*i], *i));
            v.into_iter().map(|i| labels[i]).collect()
        },
    }
}
