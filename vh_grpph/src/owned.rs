//! Labels and filtration values that own heap memory: a value that is dropped twice, read after its drop, or
//! never dropped shows as a broken canary or a wrong count (and to the sanitizers as what it is).
use phlite::columns::{BHCol, ColumnEntry};
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::implementors::{MapVecMatrix, VecVecMatrix};
use phlite::matrices::{BasisElement, ColBasis, FiltrationValue, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use phlite::reduction::{read_off_diagram, standard_algo, ClearedReductionMatrix, Diagram};
use rustc_hash::FxHashMap;
use std::cell::Cell;
use std::cmp::{Ordering, Reverse};
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use vcore::algebra::*;
use vcore::field::TField;
use vcore::gen::{self, Complex, Size};
use vcore::{ensure, ensure_eq, Ctx, Rng};

const GOOD: u64 = 0x600d_600d_600d_600d;
const DEAD: u64 = 0xdead_dead_dead_dead;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static MADE: Cell<u64> = const { Cell::new(0) };
}

/// A heap value with a canary.
#[derive(Debug)]
pub struct Own(Box<(u64, usize)>);
impl Own {
    fn new(v: usize) -> Own {
        LIVE.with(|l| l.set(l.get() + 1));
        MADE.with(|l| l.set(l.get() + 1));
        Own(Box::new((GOOD, v)))
    }
    pub fn get(&self) -> usize {
        ensure!(self.0 .0 == GOOD, "a label or filtration value is used after it was dropped (canary {:x})", self.0 .0);
        self.0 .1
    }
}
impl Drop for Own {
    fn drop(&mut self) {
        if self.0 .0 != GOOD && !std::thread::panicking() {
            vcore::viol(format!("a label or filtration value is dropped twice (canary {:x})", self.0 .0));
        }
        // the write must happen although the memory is freed next
        unsafe { std::ptr::write_volatile(&mut self.0 .0, DEAD) };
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl Clone for Own {
    fn clone(&self) -> Own {
        Own::new(self.get())
    }
}
impl PartialEq for Own {
    fn eq(&self, o: &Own) -> bool {
        self.get() == o.get()
    }
}
impl Eq for Own {}
impl PartialOrd for Own {
    fn partial_cmp(&self, o: &Own) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Own {
    fn cmp(&self, o: &Own) -> Ordering {
        self.get().cmp(&o.get())
    }
}
impl Hash for Own {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.get().hash(h)
    }
}
impl BasisElement for Own {}
impl FiltrationValue for Own {}

#[derive(Clone)]
struct OBasis {
    subs: Vec<Vec<Own>>,
    flat: Vec<Own>,
}
impl ColBasis for OBasis {
    type ElemT = Own;
    fn element(&self, i: usize) -> Own {
        self.flat[i].clone()
    }
    fn size(&self) -> usize {
        self.flat.len()
    }
}
impl SplitByDimension for OBasis {
    type SubBasisT = Vec<Own>;
    fn in_dimension(&self, d: usize) -> &Vec<Own> {
        &self.subs[d]
    }
}

/// Columns by cell id, with the cells' levels as filtration; every label and value handed out is a fresh heap value.
struct OMat<CF> {
    cols: Vec<Vec<(CF, usize)>>,
    lvl: Vec<usize>,
    basis: OBasis,
}
impl<CF: TField> OMat<CF> {
    fn new(cx: &Complex, cols: &[SVec<usize>]) -> Self {
        let subs: Vec<Vec<Own>> = (0..=cx.max_dim()).map(|d| cx.in_dim(d).into_iter().map(Own::new).collect()).collect();
        let flat = subs.iter().flatten().cloned().collect();
        OMat {
            cols: cols.iter().map(|c| c.iter().map(|(i, x)| (CF::enc(*x), *i)).collect()).collect(),
            lvl: cx.lvl.clone(),
            basis: OBasis { subs, flat },
        }
    }
}
impl<CF: TField> MatrixOracle for OMat<CF> {
    type CoefficientField = CF;
    type ColT = Own;
    type RowT = Own;
    fn column(&self, col: Own) -> impl Iterator<Item = (CF, Own)> {
        let c = col.get();
        self.cols[c].iter().map(|(x, i)| (*x, Own::new(*i)))
    }
}
impl<CF: TField> HasRowFiltration for OMat<CF> {
    type FiltrationT = Own;
    fn filtration_value(&self, row: Own) -> Own {
        Own::new(self.lvl[row.get()])
    }
}
impl<CF: TField> HasColBasis for OMat<CF> {
    type BasisT = OBasis;
    type BasisRef<'a> = &'a OBasis where Self: 'a;
    fn basis(&self) -> &OBasis {
        &self.basis
    }
}

fn dec<CF: TField>(it: impl IntoIterator<Item = (CF, Own)>, f: vcore::field::Fld) -> SVec<usize> {
    lincomb(it.into_iter().map(|(c, r)| (r.get(), c.dec())).collect::<Vec<_>>(), f)
}

type Pairs = BTreeSet<(usize, usize)>;
fn read(d: &Diagram<Own>) -> (Pairs, BTreeSet<usize>) {
    (d.pairings.iter().map(|(a, b)| (a.get(), b.get())).collect(), d.essential.iter().map(|a| a.get()).collect())
}

pub fn session<CF: TField>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let size = if cfg!(miri) { Size::Tiny } else { *rng.pick(&[Size::Tiny, Size::Small]) };
    let cx = gen::complex(rng, CF::P, size, false);
    ctx.sig(&cx.fingerprint());
    ctx.describe(|| format!("heap-owning labels, {} {}", CF::NAME, cx.brief()));
    ctx.nontrivial = cx.n() > 1;
    let base = LIVE.with(|l| l.get());
    run::<CF>(ctx, rng, &cx);
    let left = LIVE.with(|l| l.get()) - base;
    ensure!(left == 0, "{left} labels or filtration values are still alive after everything was dropped");
    ctx.add("owned_values_made", MADE.with(|l| l.replace(0)));
    ctx.add("owned_label_sessions", 1);
}

fn run<CF: TField>(ctx: &mut Ctx, rng: &mut Rng, cx: &Complex) {
    let n = cx.n();
    let f = cx.f;
    let (pairs, _) = cx.pairing();
    let ess: BTreeSet<usize> = {
        let used: BTreeSet<usize> = pairs.iter().flat_map(|(a, b)| [*a, *b]).collect();
        (0..n).filter(|i| !used.contains(i)).collect()
    };
    let md = cx.max_dim();
    let m = OMat::<CF>::new(cx, &cx.cols);
    // reductions
    if n > 0 {
        let v = standard_algo(&m);
        let d = read(&read_off_diagram(&m, &v, rng.chance(1, 2)));
        ensure!(d == (pairs.clone(), ess.clone()), "standard diagram with heap-owning labels: {d:?}");
        let (cv, d) = ClearedReductionMatrix::build_with_diagram(&m, vcore::red::handed((0..=md).rev()));
        let d = read(&d);
        ensure!(d == (pairs.clone(), ess.clone()), "clearing diagram with heap-owning labels: {d:?}");
        let r = product(&m, &cv);
        for j in 0..n.min(12) {
            let got = dec(r.column(Own::new(j)), f);
            let v = dec(cv.column(Own::new(j)), f);
            let mut want = SVec::new();
            for (i, x) in &v {
                axpy(&mut want, *x, &cx.cols[*i], f);
            }
            ensure!(got == want, "a product column with heap-owning labels is wrong");
            let mut it = r.column_with_filtration(Own::new(j));
            let _ = it.next();
            ensure_eq!(cv.col_is_cycle(Own::new(j)), want.is_empty(), "col_is_cycle with heap-owning labels");
        }
        let cv2 = cv.clone();
        drop(cv);
        let _ = cv2.column(Own::new(rng.below(n))).count();
        let c = OMat::<CF>::new(cx, &cx.coboundary_cols());
        let rev = (&c).reverse();
        let (rv, d) = ClearedReductionMatrix::build_with_diagram(&rev, vcore::red::handed(0..=md));
        let got: Pairs = d.pairings.iter().map(|(a, b)| (b.0.get(), a.0.get())).collect();
        ensure!(got == pairs, "cohomology with heap-owning labels: {got:?}");
        let un = MatrixOracle::unreverse(&rv);
        for _ in 0..4 {
            let _ = un.column(Own::new(rng.below(n))).count();
        }
        let (_, d) = phlite::reduction::standard_algo_with_diagram(&rev, true);
        drop(d);
    }
    // wrappers
    if n > 0 {
        let cached = (&m).cache_cols();
        let cons = (&m).consolidate();
        let s = sum(&m, &m);
        let boxed = std::rc::Rc::new(Box::new(std::sync::Arc::new((&m).with_filtration(|r: Own| Reverse(r)))));
        for _ in 0..8 {
            let j = rng.below(n);
            let a = dec(cached.column(Own::new(j)), f);
            let mut half = cached.column(Own::new(j));
            let _ = half.next();
            let b = dec(cons.column(Own::new(j)), f);
            let mut half2 = cons.column(Own::new(j));
            let _ = half2.next();
            let c = dec(boxed.column(Own::new(j)), f);
            ensure!(a == cx.cols[j] && b == cx.cols[j] && c == cx.cols[j], "a wrapped column with heap-owning labels is wrong");
            let mut dbl = SVec::new();
            axpy(&mut dbl, f.int(2), &cx.cols[j], f);
            ensure!(dec(s.column(Own::new(j)), f) == dbl, "a sum with heap-owning labels is wrong");
            ensure!(m.eq_on_col(&cached, Own::new(j)), "eq_on_col with heap-owning labels");
            if rng.chance(1, 4) {
                // the owner empties the public cache while a column is being read
                cached.cache.borrow_mut().clear();
            }
            let _ = half.next();
            if rng.chance(1, 2) {
                let _ = half.by_ref().count();
            }
        }
        let copy = cached.clone();
        drop(cached);
        let _ = copy.column(Own::new(rng.below(n))).count();
        let _ = m.basis().construct_reverse_lookup().len();
        let sub = (&m).sub_matrix_in_dimension(rng.below(md + 1));
        let b = sub.basis();
        for i in 0..ColBasis::size(&*b).min(4) {
            let _ = ColBasis::element(&*b, i);
        }
        let stored = VecVecMatrix::<CF, Own>::new((0..n).map(|j| m.column(Own::new(j)).collect::<Vec<_>>()));
        let map: FxHashMap<Own, Vec<(CF, Own)>> = (0..n).map(|j| (Own::new(j), m.column(Own::new(j)).collect())).collect();
        let by_map = MapVecMatrix::from(&map);
        let j = rng.below(n);
        ensure!(dec(stored.column(j), f) == cx.cols[j], "a stored column with heap-owning labels is wrong");
        ensure!(dec(by_map.column(Own::new(j)), f) == cx.cols[j], "a mapped column with heap-owning labels is wrong");
        let mut it = by_map.column(Own::new(rng.below(n)));
        let _ = it.next();
    }
    // heap columns: runs of equal rows that cancel in part or in full
    let mut col: BHCol<Own, Own, CF> = BHCol::default();
    let mut model = SVec::new();
    let steps = if cfg!(miri) { 12 } else { 40 };
    let rows = rng.range(1, 7);
    let entry = |c: CF, r: usize| -> ColumnEntry<Own, Own, CF> { (c, Own::new(r), Own::new(r / 2)).into() };
    for _ in 0..steps {
        match rng.below(9) {
            0..=3 => {
                let k = rng.range(1, 6);
                let mut batch = vec![];
                for _ in 0..k {
                    let (r, x) = (rng.below(rows), f.sign(rng));
                    add_term(&mut model, r, x, f);
                    batch.push(entry(CF::enc(x), r));
                }
                if rng.chance(1, 2) {
                    col.add_entries(batch);
                } else {
                    for e in batch {
                        col.add_entry(e);
                    }
                }
            }
            4 => {
                // cancel everything
                col.add_tuples(model.iter().map(|(r, x)| (CF::enc(f.neg(*x)), Own::new(*r), Own::new(*r / 2))).collect::<Vec<_>>());
                model.clear();
            }
            5 => {
                let want = model.last_key_value().map(|(r, x)| (*r, *x));
                let got = col.pop_pivot().map(|e| (e.row_index.get(), e.coeff.dec()));
                ensure!(got == want, "pop_pivot with heap-owning labels: {got:?} instead of {want:?}");
                if let Some((r, _)) = want {
                    model.remove(&r);
                }
            }
            6 => {
                let want = model.last_key_value().map(|(r, x)| (*r, *x));
                let got = col.clone_pivot().map(|e| (e.row_index.get(), e.coeff.dec(), e.filtration_value.get()));
                ensure!(got == want.map(|(r, x)| (r, x, r / 2)), "clone_pivot with heap-owning labels: {got:?} instead of {want:?}");
                let _ = col.peek_pivot().map(|e| e.row_index.get());
            }
            7 => {
                let c2 = col.clone();
                let all = c2.to_sorted_vec();
                let got: SVec<usize> = all.iter().map(|e| (e.row_index.get(), e.coeff.dec())).collect();
                ensure!(got == model && all.len() == model.len(), "to_sorted_vec with heap-owning labels");
            }
            _ => {
                let mut d = col.drain_sorted();
                if let Some(e) = d.next() {
                    let r = e.row_index.get();
                    drop(d);
                    model.remove(&r);
                    let (c, row, fil) = e.into();
                    let _: (CF, usize, usize) = (c, row.get(), fil.get());
                }
            }
        }
        ctx.add("owned_column_steps", 1);
    }
}
