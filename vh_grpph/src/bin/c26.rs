//! C26: no supported use has undefined behaviour, panics, overflows or leaks; basis views stay valid and
//! alias the basis they were made from. Runs natively (debug assertions, overflow checks, a counting
//! allocator), under AddressSanitizer with LeakSanitizer, and under Miri.
use ordered_float::NotNan;
use phlite::columns::{BHCol, ColumnEntry};
use phlite::fields::*;
use phlite::matrices::adaptors::{MatrixWithBasis, ReverseBasis, ReverseMatrix, UnreverseBasis, WithCachedCols};
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::implementors::{MapVecMatrix, SimpleZ2Matrix, StandardBasis, VecVecMatrix};
use phlite::matrices::{BasisElement, ColBasis, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use phlite::reduction::{read_off_diagram, standard_algo, standard_algo_with_diagram, ClearedReductionMatrix, Diagram};
use phlite_grpph::boundary::GrPPHBoundary;
use phlite_grpph::coboundary::GrPPHCoboundary;
use phlite_rips::cohomology::build_rips_coboundary_matrix;
use phlite_rips::homology::build_rips_boundary_matrix;
use phlite_rips::RipsIndex;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, Ref, RefCell};
use std::cmp::Reverse;
use std::hash::Hash;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Arc;
use vcore::driver::{guarded, Outcome};
use vcore::field::TField;
use vcore::gen::{self, Size};
use vcore::labels::{TFil, TLabel};
use vcore::mon::{Case, Style};
use vcore::{dispatch, ensure, ensure_eq, Ctx, Rng};
use vh_grpph as vg;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
}
struct Counting;
fn note(bytes: i64, blocks: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + bytes));
    let _ = BLOCKS.try_with(|l| l.set(l.get() + blocks));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64, 0);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// Runs `f` twice (the first run may initialise statics) and demands that the second leaves nothing behind.
fn leak_free(ctx: &mut Ctx, rng: &Rng, what: &str, f: impl Fn(&mut Rng)) {
    let mut r1 = Rng::new(&[rng.clone().u64()]);
    let mut r2 = Rng::new(&[rng.clone().u64()]);
    f(&mut r1);
    if cfg!(miri) {
        // the interpreter reports leaks itself
        return ctx.add("leak_free_sessions", 1);
    }
    let (b0, k0) = (LIVE.with(|l| l.get()), BLOCKS.with(|l| l.get()));
    f(&mut r2);
    let (b1, k1) = (LIVE.with(|l| l.get()), BLOCKS.with(|l| l.get()));
    ensure!(k1 == k0 && b1 == b0, "{what}: {} blocks ({} bytes) still allocated after everything was dropped", k1 - k0, b1 - b0);
    ctx.add("leak_free_sessions", 1);
}

// ---- coefficients and values ---------------------------------------------------------------------

/// A coefficient type without a representation of zero has a niche there: a zero would read as `None`.
fn sound<CF: TField>(c: CF) {
    let o = std::hint::black_box(Some(c));
    ensure!(o.is_some(), "a coefficient of {} is zero internally", CF::NAME);
    let _ = format!("{c:?}");
}
fn not_nan(x: NotNan<f64>) {
    ensure!(!std::hint::black_box(x.into_inner()).is_nan(), "a filtration value is NaN");
}

// ---- watched bases -------------------------------------------------------------------------------

/// A basis that knows how often it was asked.
struct WSub<L> {
    items: Vec<L>,
    asked: Cell<u64>,
}
struct WBasis<L> {
    before: u64,
    subs: Vec<WSub<L>>,
    flat: Vec<L>,
    asked: Cell<u64>,
    after: [u64; 3],
}
const CANARY: u64 = 0x5afe_c0de_5afe_c0de;

impl<L: BasisElement + Copy> ColBasis for WSub<L> {
    type ElemT = L;
    fn element(&self, i: usize) -> L {
        self.asked.set(self.asked.get() + 1);
        match self.items.get(i) {
            Some(l) => *l,
            None => vcore::viol(format!("position {i} asked of a sub-basis of size {}", self.items.len())),
        }
    }
    fn size(&self) -> usize {
        self.items.len()
    }
}
impl<L: BasisElement + Copy> ColBasis for WBasis<L> {
    type ElemT = L;
    fn element(&self, i: usize) -> L {
        ensure!(self.before == CANARY && self.after == [CANARY; 3], "a basis was read through a stray pointer");
        self.asked.set(self.asked.get() + 1);
        match self.flat.get(i) {
            Some(l) => *l,
            None => vcore::viol(format!("position {i} asked of a basis of size {}", self.flat.len())),
        }
    }
    fn size(&self) -> usize {
        self.flat.len()
    }
}
impl<L: BasisElement + Copy> SplitByDimension for WBasis<L> {
    type SubBasisT = WSub<L>;
    fn in_dimension(&self, d: usize) -> &WSub<L> {
        ensure!(self.before == CANARY && self.after == [CANARY; 3], "a basis was read through a stray pointer");
        match self.subs.get(d) {
            Some(s) => s,
            None => vcore::viol(format!("dimension {d} asked of a basis with {} dimensions", self.subs.len())),
        }
    }
}

fn wbasis<L: TLabel>(rng: &mut Rng) -> WBasis<L> {
    let n = rng.range(1, 9);
    let flat = L::table(n, rng);
    let k = rng.range(1, 4);
    let mut subs: Vec<WSub<L>> = (0..k).map(|_| WSub { items: vec![], asked: Cell::new(0) }).collect();
    for l in &flat {
        let d = rng.below(k);
        subs[d].items.push(*l);
    }
    WBasis { before: CANARY, subs, flat, asked: Cell::new(0), after: [CANARY; 3] }
}

/// User matrices (zero columns) that hand out their basis in different ways.
trait Give<L> {
    type R<'a>: std::ops::Deref<Target = WBasis<L>>
    where
        Self: 'a;
    fn give(&self) -> Self::R<'_>;
}
struct ByRef<L>(WBasis<L>);
impl<L> Give<L> for ByRef<L> {
    type R<'a>
        = &'a WBasis<L>
    where
        Self: 'a;
    fn give(&self) -> &WBasis<L> {
        &self.0
    }
}
struct ByRc<L>(Rc<WBasis<L>>);
impl<L> Give<L> for ByRc<L> {
    type R<'a>
        = Rc<WBasis<L>>
    where
        Self: 'a;
    fn give(&self) -> Rc<WBasis<L>> {
        self.0.clone()
    }
}
struct ByCell<L>(RefCell<WBasis<L>>);
impl<L> Give<L> for ByCell<L> {
    type R<'a>
        = Ref<'a, WBasis<L>>
    where
        Self: 'a;
    fn give(&self) -> Ref<'_, WBasis<L>> {
        self.0.borrow()
    }
}
struct W<G, L>(G, PhantomData<L>);
impl<G, L: TLabel> MatrixOracle for W<G, L> {
    type CoefficientField = Z7;
    type ColT = L;
    type RowT = L;
    fn column(&self, col: L) -> impl Iterator<Item = (Z7, L)> {
        std::iter::once((Z7::fld_one(), col))
    }
}
trait One {
    fn fld_one() -> Self;
}
impl One for Z7 {
    fn fld_one() -> Self {
        use phlite::fields::NonZeroCoefficient;
        Z7::one()
    }
}
impl<G, L: TLabel> HasRowFiltration for W<G, L> {
    type FiltrationT = ();
    fn filtration_value(&self, _: L) {}
}
impl<G: Give<L>, L: TLabel> HasColBasis for W<G, L> {
    type BasisT = WBasis<L>;
    type BasisRef<'a>
        = G::R<'a>
    where
        Self: 'a;
    fn basis(&self) -> G::R<'_> {
        self.0.give()
    }
}

struct View<'a, L> {
    name: &'static str,
    get: Box<dyn Fn(usize) -> L + 'a>,
    size: Box<dyn Fn() -> usize + 'a>,
    want: Vec<L>,
    asked: &'a Cell<u64>,
}

/// Holds many views of one basis alive at once and reads them in random order.
fn views<G: Give<L>, L: TLabel>(ctx: &mut Ctx, rng: &mut Rng, make: impl Fn(WBasis<L>) -> G) {
    let basis = wbasis::<L>(rng);
    let flat = basis.flat.clone();
    let subs: Vec<Vec<L>> = basis.subs.iter().map(|s| s.items.clone()).collect();
    ctx.sig(&format!("{}{flat:?}{subs:?}", std::any::type_name::<G>()));
    ctx.describe(|| format!("{}: views of basis {flat:?} split as {subs:?}", std::any::type_name::<G>()));
    ctx.nontrivial = flat.len() > 1;
    let rflat: Vec<L> = flat.iter().rev().copied().collect();
    let rsubs: Vec<Vec<L>> = subs.iter().map(|s| s.iter().rev().copied().collect()).collect();
    let mut m = W(make(basis), PhantomData::<L>);
    for round in 0..2 {
        {
            let k = rng.below(subs.len());
            let m = &m;
            let held = m.basis();
            let b: &WBasis<L> = &held;
            let s: &WSub<L> = b.in_dimension(k);
            let rev = m.reverse();
            let rb = HasColBasis::basis(&rev);
            let rbd: &ReverseBasis<WBasis<L>> = &rb;
            let rsub: &ReverseBasis<WSub<L>> = rbd.in_dimension(k);
            let un = MatrixOracle::unreverse(&rev);
            let ub = HasColBasis::basis(&un);
            let ubd: &UnreverseBasis<ReverseBasis<WBasis<L>>> = &ub;
            let usub: &UnreverseBasis<ReverseBasis<WSub<L>>> = ubd.in_dimension(k);
            let rr = (&rev).reverse();
            let rrb = HasColBasis::basis(&rr);
            let rrd: &ReverseBasis<ReverseBasis<WBasis<L>>> = &rrb;
            let rrsub = rrd.in_dimension(k);
            let ur = (&un).reverse();
            let urb = HasColBasis::basis(&ur);
            let urd: &ReverseBasis<UnreverseBasis<ReverseBasis<WBasis<L>>>> = &urb;
            let ursub = urd.in_dimension(k);
            // sub-matrices of reversed matrices and reversed sub-matrices
            let sm = (&rev).sub_matrix_in_dimension(k);
            let smb = HasColBasis::basis(&sm);
            let smd: &ReverseBasis<WSub<L>> = &smb;
            let rs = m.sub_matrix_in_dimension(k).reverse();
            let rsb = HasColBasis::basis(&rs);
            let rsd: &ReverseBasis<WSub<L>> = &rsb;
            let us = MatrixOracle::unreverse((&rev).sub_matrix_in_dimension(k));
            let usb = HasColBasis::basis(&us);
            let usd: &UnreverseBasis<ReverseBasis<WSub<L>>> = &usb;
            // views of a bare basis
            let bare = b.reverse();
            let bared: &ReverseBasis<WBasis<L>> = &bare;
            let bareu = (&bare).unreverse();
            let baresub = bared.in_dimension(k);

            let same = |x: *const WBasis<L>, what: &str| {
                ensure!(std::ptr::eq(x, b), "{what} does not alias the basis it was made from");
            };
            let same_sub = |x: *const WSub<L>, what: &str| {
                ensure!(std::ptr::eq(x, s), "{what} does not alias the basis it was made from");
            };
            if G::ALIASES {
                same(&rbd.0, "a reversed basis");
                same(&ubd.0 .0, "an un-reversed basis");
                same(&rrd.0 .0, "a twice reversed basis");
                same(&urd.0 .0 .0, "a reversed un-reversed basis");
                same_sub(&rsub.0, "a reversed basis of one dimension");
                same_sub(&usub.0 .0, "an un-reversed basis of one dimension");
                same_sub(&rrsub.0 .0, "a twice reversed basis of one dimension");
                same_sub(&ursub.0 .0 .0, "a reversed un-reversed basis of one dimension");
                same_sub(&smd.0, "the basis of a sub-matrix of a reversed matrix");
                same_sub(&rsd.0, "the basis of a reversed sub-matrix");
                same_sub(&usd.0 .0, "the basis of an un-reversed sub-matrix");
                same(&bared.0, "a reversed bare basis");
                same_sub(&baresub.0, "a reversed bare basis of one dimension");
                ctx.add("aliases_checked", 13);
            }
            let mut vs: Vec<View<L>> = vec![];
            macro_rules! v {
                ($name:expr, $b:expr, $want:expr, $asked:expr, $un:expr) => {{
                    let x = $b;
                    vs.push(View { name: $name, get: Box::new(move |i| $un(x.element(i))), size: Box::new(move || x.size()), want: $want.clone(), asked: $asked });
                }};
            }
            fn r1<T>(x: Reverse<T>) -> T {
                x.0
            }
            fn r2<T>(x: Reverse<Reverse<T>>) -> T {
                x.0 .0
            }
            fn r0<T>(x: T) -> T {
                x
            }
            let (fa, sa) = (&b.asked, &s.asked);
            v!("basis", b, flat, fa, r0);
            v!("basis of one dimension", s, subs[k], sa, r0);
            v!("reversed", rbd, rflat, fa, r1);
            v!("reversed, one dimension", rsub, rsubs[k], sa, r1);
            v!("un-reversed", ubd, flat, fa, r0);
            v!("un-reversed, one dimension", usub, subs[k], sa, r0);
            v!("twice reversed", rrd, flat, fa, r2);
            v!("twice reversed, one dimension", rrsub, subs[k], sa, r2);
            v!("reversed un-reversed", urd, rflat, fa, r1);
            v!("reversed un-reversed, one dimension", ursub, rsubs[k], sa, r1);
            v!("sub-matrix of reversed", smd, rsubs[k], sa, r1);
            v!("reversed sub-matrix", rsd, rsubs[k], sa, r1);
            v!("un-reversed sub-matrix of reversed", usd, subs[k], sa, r0);
            v!("reversed bare basis", bared, rflat, fa, r1);
            v!("reversed bare basis, one dimension", baresub, rsubs[k], sa, r1);
            v!("un-reversed reversed bare basis", &bareu, flat, fa, r0);
            rng.shuffle(&mut vs);
            let steps = if cfg!(miri) { 30 } else { 120 };
            for _ in 0..steps {
                if vs.len() > 1 && rng.chance(1, 20) {
                    vs.pop();
                }
                let v = &vs[rng.below(vs.len())];
                ensure_eq!((v.size)(), v.want.len(), "size of the view '{}'", v.name);
                if v.want.is_empty() {
                    continue;
                }
                let i = rng.below(v.want.len());
                let before = v.asked.get();
                ensure_eq!((v.get)(i), v.want[i], "element {i} of the view '{}'", v.name);
                if G::ALIASES {
                    ensure!(v.asked.get() > before, "the view '{}' does not read the basis it was made from", v.name);
                }
                ctx.add("reads_through_live_views", 1);
            }
        }
        // move the matrix (and with it an owned basis) and look again
        if round == 0 {
            let boxed = Box::new(m);
            let mut v = vec![*boxed];
            v.reserve(3);
            m = v.pop().unwrap();
        }
    }
}

trait Aliases {
    const ALIASES: bool = true;
}
impl<G> Aliases for G {}

/// A view of a shared basis outlives the matrix it came from.
fn outliving<L: TLabel>(ctx: &mut Ctx, rng: &mut Rng) {
    let b = Rc::new(wbasis::<L>(rng));
    let flat = b.flat.clone();
    ctx.sig(&format!("outliving{flat:?}"));
    ctx.describe(|| format!("views of the shared basis {flat:?} that outlive the matrix"));
    let m = W(ByRc(b.clone()), PhantomData::<L>);
    let own: ReverseBasis<Rc<WBasis<L>>> = HasColBasis::basis(&(&m).reverse());
    let own2: UnreverseBasis<ReverseBasis<Rc<WBasis<L>>>> = {
        let r = (&m).reverse();
        HasColBasis::basis(&MatrixOracle::unreverse(&r))
    };
    ensure_eq!(Rc::strong_count(&b), 4, "owners of a shared basis");
    drop(m);
    let held = rng.chance(1, 2).then(|| b.clone());
    drop(b);
    let d: &ReverseBasis<WBasis<L>> = &own;
    let u: &UnreverseBasis<ReverseBasis<WBasis<L>>> = &own2;
    for i in 0..flat.len() {
        ensure_eq!(d.element(i).0, flat[flat.len() - 1 - i], "element {i} of a reversed view that outlives its matrix");
        ensure_eq!(u.element(i), flat[i], "element {i} of an un-reversed view that outlives its matrix");
        ctx.add("reads_through_live_views", 2);
    }
    drop(own);
    let w = Rc::downgrade(&own2.0 .0);
    let u: &UnreverseBasis<ReverseBasis<WBasis<L>>> = &own2;
    ensure_eq!(u.in_dimension(0).size(), u.0.in_dimension(0).size(), "size in dimension 0");
    drop(own2);
    ensure_eq!(w.strong_count(), held.is_some() as usize, "owners of a shared basis after all views were dropped");
    ctx.add("views_outliving_their_matrix", 2);
    ctx.nontrivial = true;
}

// ---- views that hold the basis itself and are moved about ------------------------------------------

/// A basis without any indirection: what a handle holds moves with the handle.
#[derive(Clone)]
struct InSub<L> {
    items: [L; 5],
    len: usize,
}
#[derive(Clone)]
struct Inline<L> {
    subs: [InSub<L>; 3],
    flat: [L; 15],
    len: usize,
}
impl<L: BasisElement + Copy> ColBasis for InSub<L> {
    type ElemT = L;
    fn element(&self, i: usize) -> L {
        ensure!(self.len <= 5 && i < self.len, "position {i} asked of a sub-basis of size {}", self.len);
        self.items[i]
    }
    fn size(&self) -> usize {
        self.len
    }
}
impl<L: BasisElement + Copy> ColBasis for Inline<L> {
    type ElemT = L;
    fn element(&self, i: usize) -> L {
        ensure!(self.len <= 15 && i < self.len, "position {i} asked of a basis of size {}", self.len);
        self.flat[i]
    }
    fn size(&self) -> usize {
        self.len
    }
}
impl<L: BasisElement + Copy> SplitByDimension for Inline<L> {
    type SubBasisT = InSub<L>;
    fn in_dimension(&self, d: usize) -> &InSub<L> {
        &self.subs[d]
    }
}
struct Handle<L>(Inline<L>);
impl<L> std::ops::Deref for Handle<L> {
    type Target = Inline<L>;
    fn deref(&self) -> &Inline<L> {
        &self.0
    }
}
struct ByValue<L>(Inline<L>);
impl<L: TLabel> MatrixOracle for ByValue<L> {
    type CoefficientField = Z7;
    type ColT = L;
    type RowT = L;
    fn column(&self, col: L) -> impl Iterator<Item = (Z7, L)> {
        std::iter::once((Z7::fld_one(), col))
    }
}
impl<L: TLabel> HasRowFiltration for ByValue<L> {
    type FiltrationT = ();
    fn filtration_value(&self, _: L) {}
}
impl<L: TLabel> HasColBasis for ByValue<L> {
    type BasisT = Inline<L>;
    type BasisRef<'a>
        = Handle<L>
    where
        Self: 'a;
    fn basis(&self) -> Handle<L> {
        Handle(self.0.clone())
    }
}

/// Reads views of several bases while they are moved, swapped, boxed and overwritten.
fn moving<L: TLabel, V, B>(ctx: &mut Ctx, rng: &mut Rng, what: &str, want: &[Vec<L>], make: impl Fn(usize) -> V, un: impl Fn(B::ElemT) -> L)
where
    V: std::ops::Deref<Target = B>,
    B: ColBasis,
{
    let mut at: Vec<usize> = (0..want.len()).collect();
    let mut vs: Vec<V> = at.iter().map(|i| make(*i)).collect();
    for _ in 0..if cfg!(miri) { 12 } else { 40 } {
        let (i, j) = (rng.below(vs.len()), rng.below(vs.len()));
        match rng.below(9) {
            0 => {
                vs.swap(i, j);
                at.swap(i, j);
            }
            1 => {
                let k = rng.below(want.len());
                vs[i] = make(k);
                at[i] = k;
            }
            2 => {
                let old = std::mem::replace(&mut vs[i], make(at[j]));
                at.push(at[i]);
                at[i] = at[j];
                vs.push(*Box::new(old));
            }
            3 => {
                vs.shrink_to_fit();
                vs.reserve(9);
            }
            4 if vs.len() > 2 => {
                vs.swap_remove(i);
                at.swap_remove(i);
            }
            5 => {
                vs.rotate_left(i);
                at.rotate_left(i);
            }
            _ => {
                let w = &want[at[i]];
                let b: &B = &vs[i];
                ensure_eq!(b.size(), w.len(), "size of {what} after moves");
                if !w.is_empty() {
                    let p = rng.below(w.len());
                    ensure_eq!(un(b.element(p)), w[p], "element {p} of {what} after moves");
                }
                ctx.add("reads_through_moved_views", 1);
            }
        }
    }
}

fn moved_views<L: TLabel>(ctx: &mut Ctx, rng: &mut Rng) {
    let ms: Vec<ByValue<L>> = (0..3)
        .map(|_| {
            let n = rng.range(1, 12);
            let flat = L::table(n, rng);
            let mut subs: [InSub<L>; 3] = std::array::from_fn(|_| InSub { items: [flat[0]; 5], len: 0 });
            for l in &flat {
                let s = &mut subs[rng.below(3)];
                if s.len < 5 {
                    s.items[s.len] = *l;
                    s.len += 1;
                }
            }
            let mut a = [flat[0]; 15];
            a[..n].copy_from_slice(&flat);
            ByValue(Inline { subs, flat: a, len: n })
        })
        .collect();
    let flat: Vec<Vec<L>> = ms.iter().map(|m| m.0.flat[..m.0.len].to_vec()).collect();
    let k = rng.below(3);
    let sub: Vec<Vec<L>> = ms.iter().map(|m| m.0.subs[k].items[..m.0.subs[k].len].to_vec()).collect();
    let flip = |v: &[Vec<L>]| -> Vec<Vec<L>> { v.iter().map(|x| x.iter().rev().copied().collect()).collect() };
    ctx.sig(&format!("moved{k}{flat:?}{sub:?}"));
    ctx.describe(|| format!("views of bases {flat:?} held by value, dimension {k} {sub:?}, moved about"));
    ctx.nontrivial = true;
    let revs: Vec<_> = ms.iter().map(|m| m.reverse()).collect();
    let uns: Vec<_> = revs.iter().map(MatrixOracle::unreverse).collect();
    let subs: Vec<_> = ms.iter().map(|m| m.sub_matrix_in_dimension(k)).collect();
    let revsubs: Vec<_> = revs.iter().map(|m| m.sub_matrix_in_dimension(k)).collect();
    let unsubs: Vec<_> = revsubs.iter().map(MatrixOracle::unreverse).collect();
    let subrevs: Vec<_> = ms.iter().map(|m| m.sub_matrix_in_dimension(k).reverse()).collect();
    let unsubs2: Vec<_> = uns.iter().map(|m| m.sub_matrix_in_dimension(k)).collect();
    let r = |x: Reverse<L>| x.0;
    moving(ctx, rng, "a basis handle", &flat, |i| HasColBasis::basis(&ms[i]), |x| x);
    moving(ctx, rng, "a reversed basis", &flip(&flat), |i| HasColBasis::basis(&revs[i]), r);
    moving(ctx, rng, "an un-reversed basis", &flat, |i| HasColBasis::basis(&uns[i]), |x| x);
    moving(ctx, rng, "a basis of one dimension", &sub, |i| HasColBasis::basis(&subs[i]), |x| x);
    moving(ctx, rng, "the basis of a sub-matrix of a reversed matrix", &flip(&sub), |i| HasColBasis::basis(&revsubs[i]), r);
    moving(ctx, rng, "the basis of a reversed sub-matrix", &flip(&sub), |i| HasColBasis::basis(&subrevs[i]), r);
    moving(ctx, rng, "the basis of an un-reversed sub-matrix", &sub, |i| HasColBasis::basis(&unsubs[i]), |x| x);
    moving(ctx, rng, "the basis of a sub-matrix of an un-reversed matrix", &sub, |i| HasColBasis::basis(&unsubs2[i]), |x| x);
    // the matrices themselves are moved too
    moving(ctx, rng, "a basis reached through moved matrices", &sub, |i| Through(ms[i].clone_value().sub_matrix_in_dimension(k)), |x| x);
}
impl<L: TLabel> ByValue<L> {
    fn clone_value(&self) -> Self {
        ByValue(self.0.clone())
    }
}
/// A sub-matrix that owns its matrix, whose basis is fetched anew at every read.
struct Through<M>(M);
impl<M: HasColBasis> std::ops::Deref for Through<M> {
    type Target = Through<M>;
    fn deref(&self) -> &Self {
        self
    }
}
impl<M: HasColBasis> ColBasis for Through<M>
where
    M::BasisT: ColBasis,
{
    type ElemT = <M::BasisT as ColBasis>::ElemT;
    fn element(&self, i: usize) -> Self::ElemT {
        self.0.basis().element(i)
    }
    fn size(&self) -> usize {
        self.0.basis().size()
    }
}

// ---- whole sessions, watched by the allocator ----------------------------------------------------

fn pipeline<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let size = if cfg!(miri) { Size::Tiny } else { *rng.pick(&[Size::Tiny, Size::Small]) };
    let cx = gen::complex(rng, CF::P, size, F::TRIVIAL);
    ctx.sig(&cx.fingerprint());
    ctx.describe(|| format!("session on {} {} {} {}", CF::NAME, L::NAME, F::NAME, cx.brief()));
    ctx.nontrivial = cx.n() > 1;
    if cx.n() == 0 {
        return edge_cases::<CF>(ctx, rng);
    }
    let md = cx.max_dim();
    let case = Case::<L, F>::new(cx, rng);
    let style = Style::draw(rng);
    let cols = case.cx.cols.clone();
    let m = case.oracle::<CF>(&cols, case.basis_padded(rng.chance(1, 2), md), style, rng);
    m.log.budget.set(u64::MAX);
    m.log.strict.set(false);
    // the log may grow once; afterwards it must not look like a leak
    m.log.seq.borrow_mut().reserve(100_001);
    let labels = case.labels.clone();
    leak_free(ctx, rng, "session of reductions and views", |rng| {
        m.reset_log();
        let any = |rng: &mut Rng| *rng.pick(&labels);
        let v = standard_algo(&m);
        let d = read_off_diagram(&m, &v, rng.chance(1, 2));
        let d2 = d.clone();
        for l in &labels {
            for (c, _) in v.column(*l) {
                sound(c);
            }
        }
        let dims: Vec<usize> = (0..=md).rev().collect();
        let (cv, cd) = ClearedReductionMatrix::build_with_diagram(&m, dims.clone());
        let cv2 = cv.clone();
        let r = product(&m, &cv);
        for _ in 0..labels.len().min(8) {
            let l = any(rng);
            for (c, _) in r.column(l) {
                sound(c);
            }
            // iterators abandoned half way, all alive at once
            let mut its: Vec<_> = (0..3).map(|_| r.column_with_filtration(any(rng))).collect();
            for _ in 0..6 {
                let i = rng.below(its.len());
                if let Some(e) = its[i].next() {
                    sound(e.coeff);
                }
            }
        }
        drop(v);
        let _ = cv2.col_is_cycle(any(rng));
        drop(cv);
        for l in &labels {
            let _ = cv2.column(*l).count();
        }
        let _ = (d2.pairings.len(), cd.essential.len());
        // caches, boxes and shared owners
        let c = Rc::new((&m).cache_cols());
        let c2 = (*c).clone();
        for _ in 0..4 {
            let l = any(rng);
            let mut a = c.column(l);
            let _ = a.next();
            if rng.chance(1, 3) {
                // the owner may empty the cache while a column is being read
                c.cache.borrow_mut().clear();
            }
            let _ = c.column(l).count();
            let _ = c2.column(any(rng)).count();
            if rng.chance(1, 3) {
                c.cache.borrow_mut().remove(&l);
            }
            for (x, _) in a {
                sound(x);
            }
        }
        let b = Box::new(c2.consolidate());
        let _ = b.column(any(rng)).count();
        let mut k = b.column(any(rng));
        let _ = k.next();
        drop(k);
        let s = sum(&m, &m);
        let p = product(&s, &m);
        let _ = p.column(any(rng)).count();
        let _ = phlite::matrix_col_product!(m, m.column(any(rng))).take(2).count();
        let _ = m.basis().construct_reverse_lookup().len();
        let _ = m.eq_on_col(&s, any(rng));
        let rev = (&m).reverse();
        let (rv, rd) = standard_algo_with_diagram(&rev, true);
        let un = MatrixOracle::unreverse(&rv);
        let _ = un.column(any(rng)).count();
        drop(rd);
        // columns: partly drained, cloned, dropped
        let mut h: BHCol<F, L, CF> = m.build_bhcol(any(rng));
        for _ in 0..3 {
            h.add_entries(m.column_with_filtration(any(rng)));
        }
        let mut h2 = h.clone();
        {
            let mut dr = h.drain_sorted();
            let _ = dr.next();
        }
        let _ = h.pop_pivot().map(|e| sound(e.coeff));
        let _ = h2.clone_pivot();
        let _ = h2.peek_pivot();
        let _ = format!("{:?}", h2.clone_pivot().map(|e| format!("{e:?}")));
        let _ = h2.to_sorted_vec();
        // moved into owners
        let owned = Arc::new(VecVecMatrix::<CF, L>::new(
            labels.iter().map(|l| m.column(*l).collect::<Vec<_>>()).collect::<Vec<_>>().into_iter(),
        ));
        let f = owned.clone().with_trivial_filtration().with_basis(StandardBasis::new(labels.len()));
        let g: MatrixWithBasis<_, _> = f.clone().reverse().unreverse();
        let _ = ColBasis::element(&g.basis(), 0);
        let _ = g.using_col_basis_index().column(rng.below(labels.len())).count();
        let _ = f.sub_of(rng).count();
    });
    ctx.add("sessions", 1);
}
trait SubOf {
    fn sub_of(self, rng: &mut Rng) -> std::vec::IntoIter<usize>;
}
impl<M: MatrixOracle<ColT = usize> + HasColBasis<BasisT = StandardBasis>> SubOf for M {
    fn sub_of(self, rng: &mut Rng) -> std::vec::IntoIter<usize> {
        let n = ColBasis::size(&*self.basis());
        (0..rng.below(n + 1)).map(|i| ColBasis::element(&*self.basis(), i)).collect::<Vec<_>>().into_iter()
    }
}

fn rips<CF: TField>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let n = rng.range(0, if cfg!(miri) { 4 } else { 7 });
    let d = vcore::rips::matrix(rng, n);
    let md = rng.range(0, if cfg!(miri) { 1 } else { 4 });
    ctx.sig(&format!("{}{d:?}{md}", CF::NAME));
    ctx.describe(|| format!("{} Rips session, max_dim {md}, {d:?}", CF::NAME));
    ctx.nontrivial = n > 1;
    leak_free(ctx, rng, "Rips session", |rng| {
        let cob = build_rips_coboundary_matrix::<CF>(vcore::ripslib::nn(&d), md);
        let bd = build_rips_boundary_matrix::<CF>(vcore::ripslib::nn(&d), md);
        for dim in 0..=md {
            let b = bd.basis().in_dimension(dim);
            for i in 0..b.size() {
                let s = b.element(i);
                let vs = s.to_vec(n);
                ensure_eq!(vs.len(), s.dimension(n) + 1, "vertices of {s:?}");
                ensure_eq!(RipsIndex::from_indices(vs.into_iter(), n), Some(s), "encoding of {s:?}");
                not_nan(bd.filtration_value(s));
                for e in bd.column_with_filtration(s) {
                    sound(e.coeff);
                    not_nan(e.filtration_value);
                }
                for e in cob.column_with_filtration(s) {
                    sound(e.coeff);
                    not_nan(e.filtration_value);
                }
                let mut half = cob.column(s);
                let _ = half.next();
            }
        }
        let rev = cob.reverse();
        let (v, dg) = ClearedReductionMatrix::build_with_diagram(&rev, 0..=md);
        let (w, dh) = ClearedReductionMatrix::build_with_diagram(&bd, (0..=md).rev());
        let un = MatrixOracle::unreverse(&v);
        let ub = un.basis();
        for dim in 0..=md {
            let b = ub.in_dimension(dim);
            let wb = w.basis().in_dimension(dim);
            ensure_eq!(b.size(), wb.size(), "size of the basis in dimension {dim}");
            for i in 0..b.size() {
                ensure_eq!(b.element(i), wb.element(i), "basis in dimension {dim} at {i}");
                for (c, _) in un.column(b.element(i)) {
                    sound(c);
                }
            }
        }
        let cached = rev.cache_cols();
        if n > 0 {
            let c0 = HasColBasis::basis(&cached).in_dimension(0).element(rng.below(n));
            let mut x = cached.column(c0);
            let _ = x.next();
            let _ = cached.column(c0).count();
        }
        let _ = format!("{dg:?} {dh:?}");
    });
    ctx.add("rips_sessions", 1);
}

fn grpph<CF: TField>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let dg = if rng.chance(1, 12) {
        vg::Dg { n: rng.below(2) as u16, time: Default::default(), ground: Default::default() }
    } else {
        vg::random(rng, if cfg!(miri) { 3 } else { 7 })
    };
    if dg.n > 20 {
        return rips::<CF>(ctx, rng);
    }
    ctx.sig(&format!("{}{dg:?}", CF::NAME));
    ctx.describe(|| format!("{} path homology session on {dg:?}", CF::NAME));
    ctx.nontrivial = !dg.time.is_empty();
    let (map, table, es) = (dg.map(), dg.table(), dg.edge_set());
    leak_free(ctx, rng, "path homology session", |rng| {
        let cob = GrPPHCoboundary::<CF, _>::build(&map, &es, dg.n);
        let cob2 = GrPPHCoboundary::<CF, _>::build(&table, &es, dg.n);
        let basis = cob.basis();
        let mut cells = vec![];
        for dim in 0..2 {
            let b = basis.in_dimension(dim);
            for i in 0..b.size() {
                let c = b.element(i);
                not_nan(cob.filtration_value(c));
                cells.push((cob.filtration_value(c), c));
                for e in cob2.column_with_filtration(c) {
                    sound(e.coeff);
                    not_nan(e.filtration_value);
                    let _ = e.row_index.dimension();
                    cells.push((e.filtration_value, e.row_index));
                }
                let mut half = cob.column(c);
                let _ = half.next();
            }
        }
        cells.sort();
        cells.dedup();
        let bd = GrPPHBoundary::<CF, _>::build(&table, &es, vg::single(cells));
        let b = bd.basis();
        for i in 0..b.size() {
            for e in bd.column_with_filtration(b.element(i)) {
                sound(e.coeff);
                not_nan(e.filtration_value);
            }
        }
        let rev = (&cob).reverse();
        let (v, d) = ClearedReductionMatrix::build_with_diagram(&rev, 0..=1);
        let un = MatrixOracle::unreverse(&v);
        let ub = un.basis();
        for dim in 0..2 {
            let s = ub.in_dimension(dim);
            for i in 0..s.size() {
                ensure_eq!(s.element(i), basis.in_dimension(dim).element(i), "basis in dimension {dim} at {i}");
                let _ = un.column(s.element(i)).count();
            }
        }
        let (w, e) = standard_algo_with_diagram(&bd, rng.chance(1, 2));
        let _ = format!("{d:?} {e:?}");
        drop(w);
    });
    ctx.add("path_homology_sessions", 1);
}

// ---- degenerate but well-formed inputs -----------------------------------------------------------

fn edge_cases<CF: TField>(ctx: &mut Ctx, rng: &mut Rng) {
    ctx.sig(&format!("edge{}{}", CF::NAME, rng.below(1000)));
    ctx.describe(|| format!("{} empty and degenerate inputs", CF::NAME));
    let one = CF::enc_one();
    // matrices without columns, and with empty columns only
    let none = VecVecMatrix::<CF, usize>::from(Vec::<Vec<(CF, usize)>>::new()).with_trivial_filtration();
    let v = standard_algo(&none);
    ensure_eq!(v.columns.len(), 0, "columns of V for a matrix without columns");
    let d: Diagram<usize> = read_off_diagram(&none, &v, rng.chance(1, 2));
    ensure!(d.essential.is_empty() && d.pairings.is_empty(), "a bar in an empty diagram");
    let r = (&none).reverse();
    let rb = HasColBasis::basis(&r);
    ensure_eq!(ColBasis::size(&rb), 0, "size of the reverse of an empty basis");
    ensure_eq!(ColBasis::construct_reverse_lookup(&rb).len(), 0, "lookup of an empty basis");
    let (_, d) = standard_algo_with_diagram(&r, true);
    ensure!(d.essential.is_empty() && d.pairings.is_empty(), "a bar in an empty diagram");
    let k = rng.range(1, 5);
    let zero = VecVecMatrix::<CF, usize>::from(vec![vec![]; k]).with_trivial_filtration();
    let (_, d) = standard_algo_with_diagram(&zero, rng.chance(1, 2));
    ensure_eq!(d.essential.len(), k, "essential classes of a zero matrix");
    ensure_eq!(product(&zero, &zero).column(k - 1).count() + sum(&zero, &zero).column(0).count(), 0, "terms of zero columns");
    // one basis element, and a sub-basis that is empty
    let one_col = VecVecMatrix::<CF, usize>::from(vec![vec![]]).with_trivial_filtration();
    let b = vcore::mon::DimBasis { subs: vec![vcore::mon::SubBasis(vec![0usize]), vcore::mon::SubBasis(vec![])], flat: vec![0] };
    let m = (&one_col).with_basis(b);
    for order in [vec![0usize], vec![1], vec![1, 0], vec![0, 1], vec![]] {
        let (v, d) = ClearedReductionMatrix::build_with_diagram(&m, order.clone());
        ensure_eq!(d.essential.len(), order.contains(&0) as usize, "essential classes for dimensions {order:?}");
        ensure!(d.pairings.is_empty(), "a pair without columns");
        drop(v);
    }
    // empty columns
    let mut h = BHCol::<usize, usize, CF>::default();
    ensure!(h.pop_pivot().is_none() && h.clone_pivot().is_none() && h.peek_pivot().is_none(), "a pivot in an empty column");
    ensure_eq!(h.drain_sorted().count(), 0, "entries of an empty column");
    ensure_eq!(h.clone().to_sorted_vec().len(), 0, "entries of an empty column");
    h.add_tuple((one, 3, 1));
    h.add_tuple((one.additive_inverse(), 3, 1));
    ensure!(h.clone_pivot().is_none() && h.pop_pivot().is_none(), "a pivot in a cancelled column");
    h.add_entries(std::iter::empty::<ColumnEntry<usize, usize, CF>>());
    h.add_tuples(std::iter::empty());
    let _ = format!("{:?}", h.peek_pivot());
    // stored matrices of every kind
    let s = SimpleZ2Matrix::new_all_one(Vec::<Vec<usize>>::new().into_iter());
    ensure_eq!(ColBasis::size(&s.basis()), 0, "basis of an empty stored matrix");
    let _ = format!("{s:?}");
    let e = StandardBasis::new(0);
    ensure_eq!(ColBasis::size(&e), 0, "size of an empty standard basis");
    let mv = MapVecMatrix::<CF, usize, usize>::from(rustc_hash::FxHashMap::from_iter([(7usize, vec![(one, 2usize)])]));
    ensure_eq!(mv.column(7).count(), 1, "entries of a keyed column");
    // Rips complexes on no or one point
    for n in 0..2usize {
        let d = vec![vec![NotNan::new(0.0).unwrap(); n]; n];
        for md in 0..3 {
            let c = build_rips_coboundary_matrix::<CF>(d.clone(), md).reverse();
            let (_, dg) = ClearedReductionMatrix::build_with_diagram(&c, 0..=md);
            ensure_eq!(dg.essential.len(), n, "essential classes of {n} points");
            let b = build_rips_boundary_matrix::<CF>(d.clone(), md);
            let (_, dg) = standard_algo_with_diagram(&b, false);
            ensure_eq!(dg.essential.len(), n, "essential classes of {n} points");
            let (_, dg) = ClearedReductionMatrix::build_with_diagram(&b, (0..=md).rev());
            ensure_eq!(dg.essential.len(), n, "essential classes of {n} points");
        }
    }
    ensure!(RipsIndex::from_indices(std::iter::empty(), rng.below(9)).is_none(), "an index for the empty simplex");
    ctx.add("degenerate_inputs", 1);
    ctx.nontrivial = true;
}

// ---- requests for things that do not exist -------------------------------------------------------

/// Columns, basis positions, dimensions and cells that a matrix does not have: the call may unwind, but must not
/// read memory that is not there. The sanitizers, the interpreter and the debug assertions are the judges.
fn missing<CF: TField>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(true));
    let n = rng.below(5);
    let f = CF::fld();
    let cols: Vec<Vec<(CF, usize)>> = (0..n).map(|_| (0..rng.below(4)).map(|_| (CF::enc(f.unit(rng)), rng.below(n))).collect()).collect();
    ctx.sig(&format!("missing{}{cols:?}", CF::NAME));
    ctx.describe(|| format!("{} requests for what is not there in {cols:?}", CF::NAME));
    ctx.nontrivial = true;
    let far = |rng: &mut Rng| match rng.below(6) {
        0 | 1 => n,
        2 => n + rng.below(8),
        3 => n + rng.below(100_000),
        4 => usize::MAX - rng.below(3),
        _ => (usize::MAX >> rng.below(40)).max(n),
    };
    fn probe<T: PartialEq>(x: T) -> bool {
        let x = std::hint::black_box(x);
        x.eq(&x)
    }
    fn ask<M: MatrixOracle>(ctx: &mut Ctx, m: &M, j: M::ColT) -> bool
    where
        M::CoefficientField: TField,
    {
        let r = guarded(|| {
            let mut k = 0;
            for (c, _) in m.column(j).take(64) {
                sound(c);
                k += 1;
            }
            k
        });
        ctx.add("requests_for_what_is_missing", 1);
        r.is_err()
    }
    fn place<B: ColBasis + ?Sized>(ctx: &mut Ctx, b: &B, i: usize) {
        let _ = guarded(|| probe(b.element(i)));
        ctx.add("requests_for_what_is_missing", 1);
    }
    let mut unwound = 0;
    let map = {
        let mut h = rustc_hash::FxHashMap::default();
        for (i, c) in cols.iter().enumerate() {
            h.insert(i, c.clone());
        }
        h
    };
    for _ in 0..4 {
        let j = far(rng);
        let owned = VecVecMatrix::<CF, usize>::from(cols.clone());
        let borrowed = VecVecMatrix::from(&cols);
        let shrunk = {
            // a vector that has room for more columns than it has
            let mut v = Vec::with_capacity(n + 8);
            v.extend(cols.iter().cloned());
            VecVecMatrix::<CF, usize>::from(v)
        };
        let keyed = MapVecMatrix::from(&map);
        let keyed_owned = MapVecMatrix::<CF, usize, usize>::from(map.clone());
        let cached = (&owned).cache_cols();
        unwound += ask(ctx, &owned, j) as u64;
        unwound += ask(ctx, &borrowed, j) as u64;
        unwound += ask(ctx, &shrunk, j) as u64;
        unwound += ask(ctx, &keyed, j) as u64;
        unwound += ask(ctx, &keyed_owned, j) as u64;
        unwound += ask(ctx, &cached, j) as u64;
        unwound += ask(ctx, &cached, j) as u64;
        unwound += ask(ctx, &(&borrowed).with_trivial_filtration(), j) as u64;
        unwound += ask(ctx, &(&borrowed).with_trivial_filtration().reverse(), Reverse(j)) as u64;
        unwound += ask(ctx, &product(&owned, &borrowed), j) as u64;
        unwound += ask(ctx, &sum(&owned, &cached), j) as u64;
        unwound += ask(ctx, &(&owned).consolidate(), j) as u64;
        // a product that meets a row for which the left factor has no column
        let stray = VecVecMatrix::<CF, usize>::from(vec![vec![(CF::enc(f.unit(rng)), j)]]);
        unwound += ask(ctx, &product(&owned, &stray), 0) as u64;
        unwound += ask(ctx, &product(&cached, &stray), 0) as u64;
        // what is there can still be read
        for (i, c) in cols.iter().enumerate() {
            ensure!(cached.column(i).collect::<Vec<_>>() == *c, "column {i} after a request for a missing one");
        }
        place(ctx, &StandardBasis::new(n), j);
        place(ctx, &owned.basis(), j);
        if n > 0 {
            let filtered = (&owned).with_trivial_filtration();
            if let Ok(v) = guarded(|| standard_algo(&filtered)) {
                unwound += ask(ctx, &v, j) as u64;
            }
        }
    }
    // Rips bases and matrices
    let np = rng.range(0, 3);
    let md = rng.below(3);
    let d = vcore::rips::matrix(rng, np);
    let bd = build_rips_boundary_matrix::<CF>(vcore::ripslib::nn(&d), md);
    let cob = build_rips_coboundary_matrix::<CF>(vcore::ripslib::nn(&d), md);
    let total = bd.basis().size();
    let wild = [total, total + 1 + rng.below(9), usize::MAX];
    for i in wild {
        place(ctx, bd.basis(), i);
        let _ = guarded(|| place_in(bd.basis(), i, i));
        let _ = guarded(|| place_in(bd.basis(), rng.below(md + 1), i));
    }
    fn place_in<B: SplitByDimension>(b: &B, d: usize, i: usize) -> bool {
        probe(b.in_dimension(d).element(i))
    }
    {
        let rev = (&bd).reverse();
        let rb = HasColBasis::basis(&rev);
        let un = MatrixOracle::unreverse(&rev);
        let ub = HasColBasis::basis(&un);
        for i in wild {
            let _ = guarded(|| place_in(&*rb, rng.below(md + 2), i));
            let _ = guarded(|| place_in(&*ub, rng.below(md + 2), i));
            let _ = guarded(|| format!("{:?}", rb.element(i)).len());
            let _ = guarded(|| format!("{:?}", ub.element(i)).len());
        }
    }
    // a simplex of another point cloud
    let k = rng.range(1, 4);
    let big = np + rng.range(1, 6);
    if let Some(s) = RipsIndex::from_indices((0..k).map(|i| i + rng.below(4)), big) {
        unwound += ask(ctx, &bd, s) as u64;
        unwound += ask(ctx, &cob, s) as u64;
        let _ = guarded(|| not_nan(bd.filtration_value(s)));
        let _ = guarded(|| not_nan(cob.filtration_value(s)));
        let _ = guarded(|| s.to_vec(np).len());
    }
    ctx.add("missing_requests_that_unwound", unwound);
}

// ---- oracles that unwind -------------------------------------------------------------------------

/// Unwinds after a number of entries, as a user oracle may; nothing may be freed twice or left dangling.
fn unwinding(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.range(2, 6);
    let rows: Vec<Vec<(Z5, usize)>> = (0..n).map(|_| (0..rng.range(0, 4)).map(|_| (<Z5 as One5>::fld_one(), rng.below(n))).collect()).collect();
    let bomb = Rc::new(Cell::new(rng.range(1, 12)));
    ctx.sig(&format!("unwind{rows:?}{}", bomb.get()));
    ctx.describe(|| format!("an oracle unwinds after {} entries of {rows:?}", bomb.get()));
    struct M {
        rows: Vec<Vec<(Z5, usize)>>,
        bomb: Rc<Cell<usize>>,
        basis: StandardBasis,
    }
    impl MatrixOracle for M {
        type CoefficientField = Z5;
        type ColT = usize;
        type RowT = usize;
        fn column(&self, c: usize) -> impl Iterator<Item = (Z5, usize)> {
            self.rows[c].iter().map(|e| {
                self.bomb.set(self.bomb.get().wrapping_sub(1));
                if self.bomb.get() == 0 {
                    vcore::skip("unwound by the oracle");
                }
                *e
            })
        }
    }
    impl HasColBasis for M {
        type BasisT = StandardBasis;
        type BasisRef<'a> = &'a StandardBasis;
        fn basis(&self) -> &StandardBasis {
            &self.basis
        }
    }
    let fired = Cell::new(false);
    let m = M { rows, bomb: bomb.clone(), basis: StandardBasis::new(n) };
    let cache = (&m).cache_cols();
    let k = rng.below(4);
    let r = guarded(|| match k {
        0 => {
            for c in 0..n {
                let _ = cache.column(c).count();
            }
        }
        1 => {
            let p = product(&cache, &cache);
            for c in 0..n {
                let _ = p.column(c).count();
            }
        }
        2 => {
            let _ = standard_algo_with_diagram((&cache).with_trivial_filtration(), false);
        }
        _ => {
            let s = sum(&m, &cache).consolidate();
            for c in 0..n {
                let _ = s.column(c).count();
            }
        }
    });
    match r {
        Err(Outcome::Skipped(_)) => {
            fired.set(true);
            ctx.add("unwound_calls", 1);
        }
        Err(Outcome::Violated(m)) => vcore::viol(m),
        _ => {}
    }
    // everything is still readable
    bomb.set(0);
    for c in 0..n {
        let a: Vec<(Z5, usize)> = m.column(c).collect();
        let b: Vec<(Z5, usize)> = cache.column(c).collect();
        ensure!(a == b, "a cached column differs after an oracle unwound: {a:?} {b:?}");
    }
    ctx.nontrivial = fired.get();
}
trait One5 {
    fn fld_one() -> Self;
}
impl One5 for Z5 {
    fn fld_one() -> Self {
        use phlite::fields::NonZeroCoefficient;
        Z5::one()
    }
}

// ---- sharing between threads ---------------------------------------------------------------------

struct Probe<T: ?Sized>(PhantomData<T>);
trait NotSync {
    fn is_sync(&self) -> bool {
        false
    }
}
impl<T: ?Sized> NotSync for &Probe<T> {}
impl<T: ?Sized + Sync> Probe<T> {
    fn is_sync(&self) -> bool {
        true
    }
}
trait NotSend {
    fn is_send(&self) -> bool {
        false
    }
}
impl<T: ?Sized> NotSend for &Probe<T> {}
impl<T: ?Sized + Send> Probe<T> {
    fn is_send(&self) -> bool {
        true
    }
}
/// Only used on a type that has just been found to be Sync (or Send).
struct Assume<T>(T);
unsafe impl<T> Sync for Assume<T> {}
unsafe impl<T> Send for Assume<T> {}
impl<T> Assume<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

/// An oracle that is not Sync: it counts without synchronisation.
#[derive(Clone)]
struct Counts {
    n: usize,
    count: Rc<Cell<u64>>,
}
impl MatrixOracle for Counts {
    type CoefficientField = Z3;
    type ColT = usize;
    type RowT = usize;
    fn column(&self, c: usize) -> impl Iterator<Item = (Z3, usize)> {
        self.count.set(self.count.get() + 1);
        let _keep = self.count.clone();
        (0..c.min(self.n)).map(|r| (<Z3 as NonZeroCoefficient>::one(), r))
    }
}
impl HasRowFiltration for Counts {
    type FiltrationT = ();
    fn filtration_value(&self, _: usize) {}
}

fn hammer<M: MatrixOracle<ColT = usize, RowT = usize, CoefficientField = Z3>>(m: &Assume<M>, n: usize) -> Vec<Vec<Vec<usize>>> {
    let reps = if cfg!(miri) { 2 } else { 50 };
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..4)
            .map(|t| {
                s.spawn(move || {
                    let mut out = vec![];
                    for i in 0..reps * n {
                        let c = (i * (t + 1)) % n;
                        out = (0..n).map(|c| m.get().column(c).map(|e| e.1).collect::<Vec<_>>()).collect();
                        let _ = m.get().column(c).count();
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}

fn threads(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.range(2, 6);
    ctx.sig(&format!("threads{n}"));
    ctx.describe(|| format!("sharing matrices on {n} columns between threads"));
    let want: Vec<Vec<usize>> = (0..n).map(|c| (0..c).collect()).collect();
    let user = Counts { n, count: Rc::new(Cell::new(0)) };
    let plain = || VecVecMatrix::<Z3, usize>::from((0..n).map(|c| (0..c).map(|r| (<Z3 as NonZeroCoefficient>::one(), r)).collect()).collect::<Vec<Vec<_>>>());
    macro_rules! share {
        ($t:ty, $m:expr, $what:expr) => {{
            #[allow(clippy::needless_borrow)]
            let (sync, send) = ((&Probe::<$t>(PhantomData)).is_sync(), (&Probe::<$t>(PhantomData)).is_send());
            let _ = send;
            if sync {
                let m: $t = $m;
                let a = Assume(m);
                for got in hammer(&a, n) {
                    ensure_eq!(got, want, "{}: columns read by several threads", $what);
                }
                ctx.add("matrices_shared_between_threads", 1);
            } else {
                ctx.add("matrices_that_refuse_to_be_shared", 1);
            }
        }};
    }
    share!(VecVecMatrix<'static, Z3, usize>, plain(), "stored matrix");
    share!(Arc<VecVecMatrix<'static, Z3, usize>>, Arc::new(plain()), "shared stored matrix");
    share!(WithCachedCols<VecVecMatrix<'static, Z3, usize>>, plain().cache_cols(), "cached stored matrix");
    share!(WithCachedCols<Counts>, user.clone().cache_cols(), "cached user matrix");
    share!(ReverseMatrixIdx<Counts>, ReverseMatrixIdx(user.clone().reverse()), "reversed user matrix");
    share!(ReverseMatrixIdx<VecVecMatrix<'static, Z3, usize>>, ReverseMatrixIdx(plain().reverse()), "reversed stored matrix");
    share!(phlite::matrices::adaptors::Consolidator<WithTriv<Counts>>, user.clone().with_trivial_filtration().consolidate(), "consolidated user matrix");
    share!(phlite::matrices::combinators::Sum<Counts, Counts>, Counts::none(n, &user), "sum of user matrices");
    ctx.nontrivial = true;
}
type WithTriv<M> = phlite::matrices::adaptors::WithTrivialFiltration<M>;
impl Counts {
    fn none(n: usize, u: &Counts) -> phlite::matrices::combinators::Sum<Counts, Counts> {
        sum(u.clone(), Counts { n: 0, count: Rc::new(Cell::new(n as u64)) })
    }
}
/// Reversed matrix with plain labels again.
struct ReverseMatrixIdx<M>(ReverseMatrix<M>);
impl<M: MatrixOracle<ColT = usize, RowT = usize>> MatrixOracle for ReverseMatrixIdx<M> {
    type CoefficientField = M::CoefficientField;
    type ColT = usize;
    type RowT = usize;
    fn column(&self, c: usize) -> impl Iterator<Item = (M::CoefficientField, usize)> {
        self.0.column(Reverse(c)).map(|(x, r)| (x, r.0))
    }
}

// --------------------------------------------------------------------------------------------------

fn fields<CF: TField>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let f = CF::fld();
    let steps = if cfg!(miri) { 60 } else { 400 };
    ctx.sig(&format!("fields{}{}", CF::NAME, rng.clone().u64()));
    ctx.describe(|| format!("{steps} chained operations in {}", CF::NAME));
    let mut pool: Vec<CF> = (0..4).map(|_| CF::enc(f.unit(rng))).collect();
    for _ in 0..steps {
        let (a, b) = (*rng.pick(&pool), *rng.pick(&pool));
        let r: Option<CF> = match rng.below(6) {
            0 => a + b,
            1 => a + Some(b),
            2 => Some(a * b),
            3 => Some(a.additive_inverse()),
            4 => Some(a.mult_inverse()),
            _ => Some(CF::one()),
        };
        if let Some(c) = r {
            sound(c);
            let i = rng.below(pool.len());
            pool[i] = if CF::P == 0 && rng.chance(1, 3) { CF::enc(f.unit(rng)) } else { c };
        }
        ctx.add("coefficients_checked", 1);
    }
    ctx.nontrivial = true;
}

trait EncOne: TField {
    fn enc_one() -> Self {
        <Self as NonZeroCoefficient>::one()
    }
}
impl<T: TField> EncOne for T {}

macro_rules! by_field {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k % 7 {
            0 => $f::<Z2>($($a),*),
            1 => $f::<Z3>($($a),*),
            2 => $f::<Z5>($($a),*),
            3 => $f::<Z7>($($a),*),
            4 => $f::<Z11>($($a),*),
            5 => $f::<Z13>($($a),*),
            _ => $f::<Q>($($a),*),
        }
    };
}
macro_rules! by_label {
    ($k:expr, $f:ident [$g:ident] ( $($a:expr),* )) => {{
        use vcore::labels::*;
        match $k % 4 {
            0 => $f::<$g<usize>, usize>($($a),*, $g::wrap),
            1 => $f::<$g<Lab>, Lab>($($a),*, $g::wrap),
            2 => $f::<$g<Reverse<usize>>, Reverse<usize>>($($a),*, $g::wrap),
            _ => $f::<$g<Wide>, Wide>($($a),*, $g::wrap),
        }
    }};
}
impl<L> ByRef<L> {
    fn wrap(b: WBasis<L>) -> Self {
        ByRef(b)
    }
}
impl<L> ByRc<L> {
    fn wrap(b: WBasis<L>) -> Self {
        ByRc(Rc::new(b))
    }
}
impl<L> ByCell<L> {
    fn wrap(b: WBasis<L>) -> Self {
        ByCell(RefCell::new(b))
    }
}

use vg::owned::session as owned;
fn _hashable<T: Hash>() {}

fn main() {
    vcore::driver::run("C26", || {}, |ctx, rng, idx| {
        let k = rng.below(28);
        match idx % 12 {
            11 => by_field!(k, missing(ctx, rng)),
            0 => by_label!(k, views[ByRef](ctx, rng)),
            1 => by_label!(k, views[ByRc](ctx, rng)),
            2 => by_label!(k, views[ByCell](ctx, rng)),
            3 => match k % 6 {
                3 => moved_views::<usize>(ctx, rng),
                4 => moved_views::<vcore::labels::Wide>(ctx, rng),
                5 => moved_views::<vcore::labels::Lab>(ctx, rng),
                0 => outliving::<usize>(ctx, rng),
                1 => outliving::<Reverse<usize>>(ctx, rng),
                _ => outliving::<vcore::labels::Wide>(ctx, rng),
            },
            4 => dispatch!(k, pipeline(ctx, rng)),
            5 => by_field!(k, rips(ctx, rng)),
            6 => by_field!(k, grpph(ctx, rng)),
            7 => by_field!(k, edge_cases(ctx, rng)),
            8 => {
                if k % 4 == 0 {
                    threads(ctx, rng)
                } else {
                    unwinding(ctx, rng)
                }
            }
            9 => by_field!(k, fields(ctx, rng)),
            _ => by_field!(k, owned(ctx, rng)),
        }
    });
}
