//! C04: reversal flips every order, un-reversal restores the original exactly.
use ordered_float::NotNan;
use phlite::fields::*;
use phlite::matrices::adaptors::{MatrixWithBasis, ReverseBasis, UnreverseBasis};
use phlite::matrices::implementors::VecVecMatrix;
use phlite::matrices::{ColBasis, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use phlite::reduction::{standard_algo, ClearedReductionMatrix};
use std::cmp::Reverse;
use std::rc::Rc;
use std::sync::Arc;
use vcore::algebra::SVec;
use vcore::field::TField;
use vcore::gen::Size;
use vcore::labels::{Lab, TFil, TLabel};
use vcore::mon::{DimBasis, Style, SubBasis};
use vcore::spec::*;
use vcore::{ensure_eq, Ctx, Rng};

/// Everything that can be asked of one matrix, for random specifications.
fn case<CF: TField, C: TLabel, R: TLabel, F: TFil>(
    ctx: &mut Ctx,
    rng: &mut Rng,
    spec: impl FnOnce(&mut Rng, Size) -> Spec<C, R, F>,
) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let size = vcore::stack::size(rng);
    let s = spec(rng, size);
    let (a, b) = (Style::draw(rng), Style::draw(rng));
    let d = Dyn::<CF, C, R, F>::from_spec(&s, a, b, rng);
    ctx.sig(&format!("{s:?}{a:?}{b:?}"));
    ctx.describe(|| format!("{} {} {} {} {a:?}/{b:?} {}", CF::NAME, C::NAME, R::NAME, F::NAME, s.brief()));
    ctx.nontrivial = s.flat.len() > 1;
    // every view costs the same, so draw a few groups per case
    let group = rng.below(8);
    let labels: Vec<C> = s.cols.keys().copied().collect();
    if labels.len() > 24 {
        let keep: Vec<C> = rng.subset(labels.len(), 10).into_iter().map(|i| labels[i]).collect();
        return views(ctx, rng, d, s.restrict(|c| keep.contains(c)), s, group);
    }
    views(ctx, rng, d, s.clone(), s, group)
}

fn views<CF: TField, C: TLabel, R: TLabel, F: TFil>(
    ctx: &mut Ctx,
    rng: &mut Rng,
    d: Dyn<CF, C, R, F>,
    s: Spec<C, R, F>,
    full: Spec<C, R, F>,
    group: usize,
) {
    let mut obs = Obs { ctx, agreement_only: false };
    let o = &mut obs;
    let r = s.rev();
    let nd = s.subs.len();
    let k = rng.below(nd);
    match group {
        0 => {
            o.all(&d.clone().reverse(), &r, "M.reverse()");
            o.all(&(&d).reverse(), &r, "(&M).reverse()");
            let rev = d.clone().reverse();
            o.all(&&rev, &r, "&M.reverse()");
            o.all(&rev.clone().unreverse(), &s, "M.reverse().unreverse()");
            o.all(&MatrixOracle::unreverse(rev.clone()), &s, "unreverse(M.reverse())");
            o.all(&(&rev).unreverse(), &s, "(&M.reverse()).unreverse()");
            o.all(&(&&rev).unreverse(), &s, "(&&M.reverse()).unreverse()");
            let un = MatrixOracle::unreverse(rev);
            o.all(&&un, &s, "&unreverse(M.reverse())");
            o.all(&un.reverse(), &r, "unreverse(M.reverse()).reverse()");
        }
        1 => {
            let rr = r.rev();
            o.all(&d.clone().reverse().reverse(), &rr, "M.reverse().reverse()");
            o.all(&d.clone().reverse().reverse().unreverse(), &r, "M.reverse().reverse().unreverse()");
            o.all(&d.clone().reverse().reverse().unreverse().unreverse(), &s, "rev rev unrev unrev");
            let u = MatrixOracle::unreverse(MatrixOracle::unreverse(d.clone().reverse().reverse()));
            o.all(&u, &s, "unreverse(unreverse(rev rev))");
            let u = MatrixOracle::unreverse(d.clone().reverse().reverse().unreverse());
            o.all(&u, &s, "unreverse(rev rev unrev)");
            let u = MatrixOracle::unreverse(MatrixOracle::unreverse(d.clone().reverse()).reverse());
            o.all(&u, &s, "unreverse(unreverse(rev).reverse())");
        }
        2 => {
            // un-reversal after intermediate views of the reversed matrix
            let rev = d.clone().reverse();
            o.all(&(&rev).cache_cols(), &r, "rev.cache_cols()");
            o.all(&(&rev).cache_cols().unreverse(), &s, "rev.cache_cols().unreverse()");
            o.all(&(&rev).consolidate().unreverse(), &s, "rev.consolidate().unreverse()");
            o.all(&(&rev).with_trivial_filtration().with_filtration(|x: Reverse<R>| Reverse(full.fil[&x.0])).unreverse(), &s,
                "rev.with_filtration(f).unreverse()");
            let (flat, subs) = random_basis(rng, &r.cols.keys().copied().collect::<Vec<_>>(), 0);
            let nb = DimBasis { flat: flat.clone(), subs: subs.iter().cloned().map(SubBasis).collect() };
            let rb = r.with_bases(flat, subs);
            let sb: Spec<C, R, F> = unrev(&rb);
            o.all(&(&rev).with_basis(&nb), &rb, "rev.with_basis(b)");
            o.all(&(&rev).with_basis(&nb).unreverse(), &sb, "rev.with_basis(b).unreverse()");
            o.all(&MatrixWithBasis::new(&rev, nb.clone()).cache_cols().unreverse(), &sb, "rev.with_basis(b).cache_cols().unreverse()");
            // basis handed over already reversed
            let ob = s.dim_basis();
            o.all(&(&rev).with_basis((&ob).reverse()), &r, "rev.with_basis(b.reverse())");
            o.all(&(&rev).with_basis((&ob).reverse()).unreverse(), &s, "rev.with_basis(b.reverse()).unreverse()");
        }
        3 => {
            // one dimension of a reversed matrix
            let rev = d.clone().reverse();
            let sub = s.with_bases(s.subs[k].clone(), vec![]);
            let rsub = sub.rev();
            let v = rev.clone().sub_matrix_in_dimension(k);
            o.based(&v, &rsub, "rev.sub(k)");
            o.based(&&v, &rsub, "&rev.sub(k)");
            o.based(&(&v).unreverse(), &sub, "(&rev.sub(k)).unreverse()");
            o.based(&v.clone().unreverse(), &sub, "rev.sub(k).unreverse()");
            o.based(&(&v).cache_cols().unreverse(), &sub, "rev.sub(k).cache_cols().unreverse()");
            o.based(&(&v).consolidate().unreverse(), &sub, "rev.sub(k).consolidate().unreverse()");
            let w = d.clone().sub_matrix_in_dimension(k);
            o.based(&w.clone().reverse(), &rsub, "sub(k).reverse()");
            o.based(&(&w).reverse(), &rsub, "(&sub(k)).reverse()");
            o.based(&w.clone().reverse().unreverse(), &sub, "sub(k).reverse().unreverse()");
            o.based(&MatrixOracle::unreverse((&w).reverse()), &sub, "unreverse((&sub(k)).reverse())");
            o.based(&(&rev).sub_matrix_in_dimension(k).reverse(), &rsub.rev(), "(&rev).sub(k).reverse()");
            let u = MatrixOracle::unreverse(rev);
            o.based(&(&u).sub_matrix_in_dimension(k), &sub, "unreverse(rev).sub(k)");
            o.based(&(&u).sub_matrix_in_dimension(k).reverse(), &rsub, "unreverse(rev).sub(k).reverse()");
            let cols = s.subs[k].iter().rev().enumerate().filter(|(_, c)| s.cols.contains_key(c))
                .map(|(i, c)| (i, r.cols[&Reverse(*c)].clone())).collect();
            o.filtered(&v.using_col_basis_index(), &cols, &r.fil, "rev.sub(k).using_col_basis_index()");
        }
        4 => {
            // bases on their own, borrowed, nested, and behind every kind of pointer
            let b = s.dim_basis();
            let (fl, sb) = (&s.flat, &s.subs);
            let (rf, rs) = (&r.flat, &r.subs);
            let rr = r.rev();
            o.split(&(&b).reverse(), rf, rs, "(&b).reverse()");
            let x = (&b).reverse();
            o.split(&&x, rf, rs, "&(&b).reverse()");
            o.split(&x.unreverse(), fl, sb, "(&b).reverse().unreverse()");
            o.split(&(&x).unreverse(), fl, sb, "(&(&b).reverse()).unreverse()");
            o.split(&ColBasis::unreverse(x), fl, sb, "ColBasis::unreverse((&b).reverse())");
            o.split(&x.reverse(), &rr.flat, &rr.subs, "(&b).reverse().reverse()");
            o.split(&(&x).reverse(), &rr.flat, &rr.subs, "(&(&b).reverse()).reverse()");
            o.split(&ColBasis::unreverse(x.reverse()), rf, rs, "unreverse(rev rev)");
            o.split(&ColBasis::unreverse(ColBasis::unreverse(x.reverse())), fl, sb, "unreverse(unreverse(rev rev))");
            o.split(&ColBasis::reverse(ColBasis::unreverse(x)), rf, rs, "reverse(unreverse(rev))");
            o.split(&ReverseBasis(b.clone()), rf, rs, "ReverseBasis(b)");
            o.split(&ReverseBasis(b.clone()).unreverse(), fl, sb, "ReverseBasis(b).unreverse()");
            o.split(&UnreverseBasis(ReverseBasis(b.clone())), fl, sb, "UnreverseBasis(ReverseBasis(b))");
            // through Deref
            let p = ReverseBasis(&b);
            o.split::<ReverseBasis<DimBasis<C>>>(&p, rf, rs, "*ReverseBasis(&b)");
            let p = ReverseBasis(Rc::new(b.clone()));
            o.split::<ReverseBasis<DimBasis<C>>>(&p, rf, rs, "*ReverseBasis(Rc)");
            o.flat(p.in_dimension(k), &rs[k], "ReverseBasis(Rc).in_dimension");
            let p = ReverseBasis(Arc::new(b.clone()));
            o.split::<ReverseBasis<DimBasis<C>>>(&p, rf, rs, "*ReverseBasis(Arc)");
            let p = ReverseBasis(Box::new(b.clone()));
            o.split::<ReverseBasis<DimBasis<C>>>(&p, rf, rs, "*ReverseBasis(Box)");
            let p = ReverseBasis(Owned(Box::new(b.clone())));
            o.split::<ReverseBasis<DimBasis<C>>>(&p, rf, rs, "*ReverseBasis(Owned)");
            let p = ReverseBasis(Box::new(ReverseBasis(b.clone())));
            o.split::<ReverseBasis<ReverseBasis<DimBasis<C>>>>(&p, &rr.flat, &rr.subs, "*ReverseBasis(Box(ReverseBasis))");
            let rb = r.dim_basis();
            o.split(&(&rb).unreverse(), fl, sb, "(&rb).unreverse()");
            let p = UnreverseBasis(Rc::new(rb.clone()));
            o.split::<UnreverseBasis<DimBasis<Reverse<C>>>>(&p, fl, sb, "*UnreverseBasis(Rc)");
            let p = UnreverseBasis(Box::new(rb.clone()));
            o.split::<UnreverseBasis<DimBasis<Reverse<C>>>>(&p, fl, sb, "*UnreverseBasis(Box)");
            let p = UnreverseBasis(&rb);
            o.split::<UnreverseBasis<DimBasis<Reverse<C>>>>(&p, fl, sb, "*UnreverseBasis(&)");
            let p = UnreverseBasis(Owned(Box::new(ReverseBasis(b.clone()))));
            o.split::<UnreverseBasis<ReverseBasis<DimBasis<C>>>>(&p, fl, sb, "*UnreverseBasis(Owned(ReverseBasis))");
            o.split(&(&ReverseBasis(UnreverseBasis(&rb))), rf, rs, "ReverseBasis(UnreverseBasis(&rb))");
            // plain vectors, and lookups of reversed positions
            let v = s.flat.clone();
            o.flat(&(&v).reverse(), rf, "(&vec).reverse()");
            o.flat(&(&v).reverse().unreverse(), fl, "(&vec).reverse().unreverse()");
            o.flat(&ColBasis::unreverse((&v).reverse()), fl, "ColBasis::unreverse((&vec).reverse())");
            let look = (&b).reverse().construct_reverse_lookup();
            let want = rf.iter().enumerate().map(|(i, c)| (*c, i)).collect();
            ensure_eq!(look, want, "reverse lookup of a reversed basis");
            let look = (&rb).unreverse().in_dimension(k).construct_reverse_lookup();
            let want = sb[k].iter().enumerate().map(|(i, c)| (*c, i)).collect();
            ensure_eq!(look, want, "reverse lookup of an un-reversed sub-basis");
        }
        5 => {
            // matrices that hand their basis out by value
            let m = RcBased(d.clone());
            o.all(&m.clone().reverse(), &r, "rc.reverse()");
            o.all(&MatrixOracle::unreverse((&m).reverse()), &s, "unreverse((&rc).reverse())");
            o.all(&m.clone().reverse().reverse(), &r.rev(), "rc.reverse().reverse()");
            let sub = s.with_bases(s.subs[k].clone(), vec![]);
            o.based(&m.clone().reverse().sub_matrix_in_dimension(k), &sub.rev(), "rc.reverse().sub(k)");
            o.based(&m.clone().reverse().sub_matrix_in_dimension(k).unreverse(), &sub, "rc.reverse().sub(k).unreverse()");
            o.based(&m.sub_matrix_in_dimension(k).reverse(), &sub.rev(), "rc.sub(k).reverse()");
            let m = FreshBased(d.clone());
            o.all(&m.clone().reverse(), &r, "fresh.reverse()");
            o.all(&MatrixOracle::unreverse((&m).reverse()), &s, "unreverse((&fresh).reverse())");
            o.based(&m.clone().reverse().sub_matrix_in_dimension(k).unreverse(), &sub, "fresh.reverse().sub(k).unreverse()");
            o.based(&m.sub_matrix_in_dimension(k).reverse(), &sub.rev(), "fresh.sub(k).reverse()");
            // several views alive at once, and views that outlive a clone
            let m = RcBased(d.clone());
            let rev = m.reverse();
            let (b1, b2) = (rev.basis(), rev.basis());
            let un = MatrixOracle::unreverse(rev.clone());
            let b3 = un.basis();
            o.split(&*b1, &r.flat, &r.subs, "first view");
            o.split(&*b3, &s.flat, &s.subs, "un-reversed view");
            drop(b1);
            o.split(&*b2, &r.flat, &r.subs, "second view");
            let x = b2.unreverse();
            o.split(&*x, &s.flat, &s.subs, "inner pointer of the second view");
        }
        6 => {
            // stored matrices
            let cols: Vec<Vec<(CF, usize)>> = (0..s.flat.len())
                .map(|_| (0..rng.below(5)).map(|_| (CF::enc(CF::fld().unit(rng)), rng.below(9))).collect())
                .collect();
            let want: std::collections::BTreeMap<usize, SVec<usize>> = cols
                .iter()
                .enumerate()
                .map(|(j, c)| (j, vcore::mon::dec_keys(c.iter().copied())))
                .collect();
            let m = VecVecMatrix::new(cols.clone());
            let fil: std::collections::BTreeMap<usize, F> = random_fil::<usize, F>(rng, &(0..9).collect::<Vec<_>>());
            let spec = Spec { cols: want, flat: (0..cols.len()).collect(), subs: vec![], fil: fil.clone() };
            let m = m.with_filtration(|x: usize| fil[&x]);
            o.based(&m, &spec, "stored");
            o.based(&(&m).reverse(), &spec.rev(), "stored.reverse()");
            o.based(&(&m).reverse().unreverse(), &spec, "stored.reverse().unreverse()");
            o.based(&MatrixOracle::unreverse((&m).reverse()), &spec, "unreverse(stored.reverse())");
            o.based(&(&m).reverse().reverse(), &spec.rev().rev(), "stored.reverse().reverse()");
            // indexed by position and reversed
            let ix = (&d).using_col_basis_index();
            let ic: std::collections::BTreeMap<usize, SVec<R>> = s.flat.iter().enumerate()
                .filter(|(_, c)| s.cols.contains_key(c)).map(|(i, c)| (i, s.cols[c].clone())).collect();
            let is = Spec { cols: ic, fil: s.fil.clone(), flat: vec![], subs: vec![] };
            let isr = is.rev();
            o.filtered(&ix.reverse(), &isr.cols, &isr.fil, "indexed.reverse()");
            o.filtered(&MatrixOracle::unreverse(ix.reverse()), &is.cols, &is.fil, "unreverse(indexed.reverse())");
        }
        _ => {
            // filtration only / basis only matrices
            o.matrix(&(&d).with_trivial_filtration().discard().reverse(), &r.cols, "unfiltered.reverse()");
            o.all(&(&d).with_trivial_filtration().with_filtration(|_| Reverse(())).reverse().unreverse(), &s.with_fil(s.fil.keys().map(|x| (*x, Reverse(()))).collect()), "f.reverse().unreverse()");
            o.all(&(&d).reverse().cache_cols().consolidate().unreverse().cache_cols(), &s, "rev.cache.consolidate.unrev.cache");
            o.all(&MatrixOracle::unreverse((&d).consolidate().reverse().consolidate()).cache_cols().reverse(), &r, "mixed");
            o.matrix(&MatrixOracle::unreverse(Rc::new((&d).reverse())), &s.cols, "unreverse(Rc(rev))");
            o.matrix(&Rc::new((&d).reverse()).reverse(), &r.rev().cols, "Rc(rev).reverse()");
            o.matrix(&MatrixOracle::unreverse(Box::new(Arc::new((&d).reverse()))), &s.cols, "unreverse(Box(Arc(rev)))");
            o.matrix(&phlite::matrices::combinators::sum((&d).reverse(), (&d).reverse()).unreverse(),
                &s.cols.iter().map(|(c, v)| (*c, twice::<CF, R>(v))).collect(), "unreverse(rev+rev)");
        }
    }
}

trait Discard {
    type M;
    fn discard(self) -> Self::M;
}
impl<M: MatrixOracle> Discard for phlite::matrices::adaptors::WithTrivialFiltration<M> {
    type M = Rc<Self>;
    fn discard(self) -> Rc<Self> {
        Rc::new(self)
    }
}

fn twice<CF: TField, R: Ord + Copy>(v: &SVec<R>) -> SVec<R> {
    let f = CF::fld();
    let mut w = v.clone();
    vcore::algebra::axpy(&mut w, f.int(1), v, f);
    w
}

fn unrev<C: El, R: El, F: Fv>(r: &Spec<Reverse<C>, Reverse<R>, Reverse<F>>) -> Spec<C, R, F> {
    Spec {
        cols: r.cols.iter().map(|(c, v)| (c.0, v.iter().map(|(x, y)| (x.0, *y)).collect())).collect(),
        fil: r.fil.iter().map(|(x, f)| (x.0, f.0)).collect(),
        flat: r.flat.iter().rev().map(|c| c.0).collect(),
        subs: r.subs.iter().map(|s| s.iter().rev().map(|c| c.0).collect()).collect(),
    }
}

/// The use reversal exists for: reduce a reversed matrix, un-reverse what comes out.
fn reduced<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let size = Size::draw_no_large(rng);
    let mut cx = vcore::gen::complex(rng, CF::P, size, F::TRIVIAL);
    if cx.n() == 0 {
        return;
    }
    cx.cols = cx.coboundary_cols();
    let case = vcore::mon::Case::<L, F>::new(cx, rng);
    let style = Style::draw(rng);
    let m = case.oracle::<CF>(&case.cx.cols, case.basis(true), style, rng);
    let rev = (&m).reverse();
    ctx.sig(&case.cx.fingerprint());
    let md = case.cx.max_dim();
    let dec = |cols: Vec<(Reverse<L>, SVec<Reverse<L>>)>| {
        cols.into_iter()
            .map(|(c, v)| (c.0, v.into_iter().map(|(r, x)| (r.0, x)).collect()))
            .collect::<std::collections::BTreeMap<L, SVec<L>>>()
    };
    let b = case.basis(true);
    let mut obs = Obs { ctx, agreement_only: false };
    {
        let v = standard_algo(&rev).with_basis(rev.basis());
        let vb = v.basis();
        let cols = dec((0..vb.size()).map(|i| { let c = vb.element(i); (c, vcore::mon::read_col(&v, c)) }).collect());
        let un = MatrixOracle::unreverse(&v);
        obs.matrix(&un, &cols, "unreverse(V)");
        obs.split(&*un.basis(), &b.flat, &b.subs.iter().map(|s| s.0.clone()).collect::<Vec<_>>(), "unreverse(V).basis()");
    }
    {
        let (v, _) = ClearedReductionMatrix::build_with_diagram(&rev, vcore::red::handed(0..=md));
        let vb = v.basis();
        let cols = dec((0..vb.size()).map(|i| { let c = vb.element(i); (c, vcore::mon::read_col(&v, c)) }).collect());
        let un = MatrixOracle::unreverse(&v);
        obs.matrix(&un, &cols, "unreverse(cleared V)");
        obs.split(&*un.basis(), &b.flat, &b.subs.iter().map(|s| s.0.clone()).collect::<Vec<_>>(), "unreverse(cleared V).basis()");
        let k = rng.below(md + 1);
        let sub = (&v).sub_matrix_in_dimension(k).unreverse();
        obs.flat(&*sub.basis(), &b.subs[k].0, "cleared V sub unreverse");
        let f = |l: L| case.fval(case.id(l));
        let r = phlite::matrices::combinators::product((&m).with_filtration(f), &un);
        for c in cols.keys().take(5) {
            obs.agree(&r, *c, None, "D * unreverse(V)");
        }
    }
    ctx.add("reduction_matrices_unreversed", 2);
    ctx.nontrivial = case.cx.n() > 1;
}

fn main() {
    let _ = |m: &VecVecMatrix<'static, Z2, usize>| HasRowFiltration::filtration_value(&m.with_trivial_filtration(), 0);
    vcore::driver::run("C04", vcore::gen::self_check, |ctx, rng, idx| match idx % 8 {
        0 | 1 => case::<Z2, _, _, _>(ctx, rng, complex_spec::<Z2, usize, NotNan<f64>>),
        2 | 3 => case::<Z3, _, _, _>(ctx, rng, random_spec::<Z3, isize, usize, usize>),
        4 | 5 => case::<Z7, _, _, _>(ctx, rng, random_spec::<Z7, Lab, isize, ()>),
        6 => reduced::<Z5, Lab, NotNan<f64>>(ctx, rng),
        _ => reduced::<Z2, usize, isize>(ctx, rng),
    });
}
