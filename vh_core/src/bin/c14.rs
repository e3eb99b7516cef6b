//! C14: diagrams depend on the matrix, not on how its oracle presents it.
use ordered_float::NotNan;
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::implementors::{MapVecMatrix, VecVecMatrix};
use phlite::matrices::{HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension, SquareMatrix};
use rustc_hash::FxHashMap;
use std::cmp::Reverse;
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;
use std::sync::Arc;
use vcore::algebra::SVec;
use vcore::field::TField;
use vcore::gen::{self, Size};
use vcore::labels::{Lab, TFil, TLabel, Wide};
use vcore::mon::{Case, DimBasis, Style, SubBasis};
use vcore::red::*;
use vcore::{dispatch_few, ensure, Ctx, Rng};

/// The algorithm to run: standard forward/backward, clearing over the given dimensions.
#[derive(Clone, Debug)]
enum Algo {
    Standard(bool),
    Clearing(Vec<usize>),
}

fn run<M>(m: &M, a: &Algo, id: impl Fn(M::ColT) -> usize) -> Dgm
where
    M: SquareMatrix + HasRowFiltration + HasColBasis,
    M::BasisT: SplitByDimension,
    M::CoefficientField: TField,
    M::ColT: Hash + Debug + 'static,
    M::RowT: 'static,
    M::FiltrationT: Clone,
{
    match a {
        Algo::Standard(rev) => standard_dgm(m, *rev, id),
        Algo::Clearing(dims) => clearing_dgm(m, dims.iter().copied(), id),
    }
}

fn same(ctx: &mut Ctx, base: &Dgm, got: Dgm, a: &Algo, what: &str) {
    ensure!(&got == base, "{a:?}: diagram changes {what}: {}", got.diff(base));
    ctx.add("presentations_compared", 1);
}

/// The same complex with other labels and filtration values in the same order.
fn relabelled<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng, cx: &vcore::gen::Complex, cols: &[SVec<usize>], a: &Algo, md: usize, base: &Dgm, rev: bool) {
    let case = Case::<L, F>::new(cx.clone(), rng);
    let style = Style::draw(rng);
    let m = case.oracle::<CF>(cols, case.basis_padded(true, md), style, rng);
    m.log.budget.set(m.poly_budget().min(1_000_000_000));
    let got = if rev {
        run(&(&m).reverse(), a, |l: Reverse<L>| case.id(l.0))
    } else {
        run(&m, a, |l: L| case.id(l))
    };
    same(ctx, base, got, a, &format!("with labels {} and filtration {} ({style:?})", L::NAME, F::NAME));
    ctx.add("relabellings", 1);
}

fn case<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let size = Size::draw_no_large(rng);
    let any = rng.chance(1, 5);
    let cx = if any {
        gen::arbitrary_square(rng, CF::P, size, F::TRIVIAL)
    } else {
        gen::complex(rng, CF::P, size, F::TRIVIAL)
    };
    let md = cx.max_dim();
    let rev = !any && rng.chance(1, 2);
    let cols = if rev { cx.coboundary_cols() } else { cx.cols.clone() };
    let algo = if any || rng.chance(1, 2) {
        Algo::Standard(rng.chance(1, 2))
    } else if rev {
        Algo::Clearing((0..=md).collect())
    } else {
        Algo::Clearing((0..=md).rev().collect())
    };
    ctx.describe(|| format!("{} {} {} {} reversed={rev} {algo:?}", CF::NAME, L::NAME, F::NAME, cx.brief()));
    ctx.sig(&format!("{rev}{algo:?}{}", cx.fingerprint()));
    let n = cx.n();
    let case = Case::<L, F>::new(cx, rng);
    let id = |l: L| case.id(l);
    let rid = |l: Reverse<L>| case.id(l.0);
    let basis = case.basis(true);
    let mk = |s: Style, rng: &mut Rng| {
        let m = case.oracle::<CF>(&cols, basis.clone(), s, rng);
        m.log.budget.set(m.poly_budget().min(1_000_000_000));
        m
    };
    let m0 = mk(Style::Ascending, rng);
    // run on m or on its reverse
    macro_rules! go {
        ($m:expr) => {{
            let m = $m;
            if rev {
                run(&(&m).reverse(), &algo, rid)
            } else {
                run(&m, &algo, id)
            }
        }};
    }
    let base = go!(&m0);
    ctx.add("pairs", base.pairs.len() as u64);
    ctx.nontrivial = !base.pairs.is_empty();
    same(ctx, &base, go!(&m0), &algo, "when repeated");
    for s in [Style::Descending, Style::Shuffled, Style::Split, Style::Cancelling] {
        same(ctx, &base, go!(&mk(s, rng)), &algo, &format!("with entries {s:?}"));
    }
    let s = *rng.pick(&[Style::Split, Style::Cancelling]);
    let m = mk(s, rng);
    let fil = |l: L| case.fval(case.id(l));
    same(ctx, &base, go!((&m).cache_cols()), &algo, "when cached");
    same(ctx, &base, go!((&m).consolidate()), &algo, "when consolidated");
    same(ctx, &base, go!((&m).with_filtration(fil)), &algo, "with a wrapped filtration");
    same(ctx, &base, go!((&m).consolidate().cache_cols().with_filtration(fil)), &algo, "when consolidated and cached");
    let k = rng.below(3);
    let boxed = match k {
        0 => go!(Box::new(&m).with_filtration(fil).with_basis(basis.clone())),
        1 => go!(Rc::new(&m).with_basis(basis.clone()).with_filtration(fil)),
        _ => go!(Arc::new(&m).cache_cols().with_filtration(fil).with_basis(basis.clone())),
    };
    same(ctx, &base, boxed, &algo, ["boxed", "in an Rc", "in an Arc"][k]);
    // D = I * D = D * I = (D + X) - X
    let idm: FxHashMap<L, Vec<(CF, L)>> = case.labels.iter().map(|l| (*l, vec![(CF::one(), *l)])).collect();
    let idm = MapVecMatrix::from(&idm).columns.into_owned();
    same(
        ctx,
        &base,
        go!(product(MapVecMatrix::from(&idm), &m).with_filtration(fil)),
        &algo,
        "as a product with the identity on the left",
    );
    same(
        ctx,
        &base,
        go!(product(&m, MapVecMatrix::from(&idm)).with_basis(basis.clone())),
        &algo,
        "as a product with the identity on the right",
    );
    let junk: Vec<SVec<usize>> = (0..n)
        .map(|_| (0..rng.below(3)).map(|_| (rng.below(n), CF::fld().unit(rng))).collect())
        .collect();
    let neg: Vec<SVec<usize>> = junk
        .iter()
        .map(|c| c.iter().map(|(k, x)| (*k, CF::fld().neg(*x))).collect())
        .collect();
    let x = case.oracle::<CF>(&junk, basis.clone(), Style::Shuffled, rng);
    let y = case.oracle::<CF>(&neg, basis.clone(), Style::Split, rng);
    same(
        ctx,
        &base,
        go!(sum(&x, sum(&m, &y)).with_filtration(fil).with_basis(basis.clone())),
        &algo,
        "as a sum",
    );
    // stored matrices indexed by label rank
    let pos_basis = DimBasis {
        subs: basis.subs.iter().map(|s| SubBasis(s.0.iter().map(|l| case.id(*l)).collect())).collect(),
        flat: basis.flat.iter().map(|l| case.id(*l)).collect::<Vec<usize>>(),
    };
    let stored: Vec<Vec<(CF, usize)>> =
        m.cols.iter().map(|c| c.iter().map(|(x, l)| (*x, case.id(*l))).collect()).collect();
    let vv = VecVecMatrix::from(&stored).with_filtration(|i: usize| case.fval(i)).with_basis(pos_basis);
    let got = if rev {
        run(&(&vv).reverse(), &algo, |i: Reverse<usize>| i.0)
    } else {
        run(&vv, &algo, |i: usize| i)
    };
    same(ctx, &base, got, &algo, "as a stored matrix");
    match rng.below(4) {
        0 => relabelled::<CF, usize, usize>(ctx, rng, &case.cx, &cols, &algo, md, &base, rev),
        1 => relabelled::<CF, Wide, NotNan<f32>>(ctx, rng, &case.cx, &cols, &algo, md, &base, rev),
        2 => relabelled::<CF, Lab, Reverse<NotNan<f64>>>(ctx, rng, &case.cx, &cols, &algo, md, &base, rev),
        _ => relabelled::<CF, Reverse<usize>, isize>(ctx, rng, &case.cx, &cols, &algo, md, &base, rev),
    }
    ctx.max("largest_complex", n as u64);
}

fn main() {
    vcore::driver::run("C14", gen::self_check, |ctx, rng, idx| {
        dispatch_few!(idx as usize, case(ctx, rng))
    })
}
