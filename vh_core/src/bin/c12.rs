//! C12: reductions only ask the oracle for columns they may ask for, and finish.
use phlite::matrices::{ColBasis, HasColBasis, MatrixOracle};
use phlite::reduction::{read_off_diagram, standard_algo, ClearedReductionMatrix};
use std::cmp::Reverse;
use vcore::field::TField;
use vcore::gen::{self, Size};
use vcore::labels::{TFil, TLabel};
use vcore::mon::{Case, Mat, Style, SubBasis};
use vcore::red::*;
use vcore::{dispatch, ensure, Ctx, Rng};

fn watch<CF: TField, L: TLabel, F: TFil>(m: &Mat<CF, L, F>, allowed: Vec<bool>) {
    m.reset_log();
    *m.log.allowed.borrow_mut() = Some(allowed);
    m.log.budget.set(m.poly_budget().min(2_000_000_000));
}

fn verdict<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, m: &Mat<CF, L, F>, what: &str) {
    let r = m.log.requests.get();
    ensure!(
        r <= m.request_bound(),
        "{what}: {r} column requests for {} cells exceed the polynomial bound {}",
        m.labels.len(),
        m.request_bound()
    );
    ensure!(
        m.log.fil_stray.get() == 0,
        "{what}: filtration value requested for a row that occurs in no column"
    );
    ctx.add("column_requests", r);
    ctx.add("filtration_requests", m.log.fil_calls.get());
    ctx.add("reductions_watched", 1);
    ctx.max("most_requests_in_one_reduction", r);
}

fn case<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let size = Size::draw(rng);
    match rng.below(3) {
        0 => standard::<CF, L, F>(ctx, rng, size),
        _ => clearing::<CF, L, F>(ctx, rng, size),
    }
}

/// Basis of some of the cells only, in any order; columns of the others cannot be evaluated.
fn standard<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng, size: Size) {
    let cx = if rng.chance(1, 2) {
        gen::arbitrary_square(rng, CF::P, size, F::TRIVIAL)
    } else {
        gen::complex(rng, CF::P, size, F::TRIVIAL)
    };
    let n = cx.n();
    let case = Case::<L, F>::new(cx, rng);
    let mut ids: Vec<usize> = (0..n).collect();
    match rng.below(4) {
        0 => {}
        1 => rng.shuffle(&mut ids),
        2 => {
            let k = rng.below(n + 1);
            ids = rng.subset(n, k);
        }
        _ => {
            let k = rng.below(n + 1);
            ids = rng.subset(n, k);
            rng.shuffle(&mut ids);
        }
    }
    let mut basis = case.basis(true);
    basis.flat = ids.iter().map(|i| case.labels[*i]).collect();
    basis.subs = vec![SubBasis(basis.flat.clone())];
    let style = Style::draw(rng);
    ctx.describe(|| format!("standard {} {} {} {} basis={ids:?} {style:?}", CF::NAME, L::NAME, F::NAME, case.cx.brief()));
    ctx.sig(&format!("s{}{ids:?}", case.cx.fingerprint()));
    let m = case.oracle::<CF>(&case.cx.cols, basis, style, rng);
    let mut allowed = vec![false; n];
    for i in &ids {
        allowed[*i] = true;
    }
    if ids.len() < n {
        ctx.add("partial_bases", 1);
    }
    watch(&m, allowed.clone());
    let v = standard_algo(&m);
    verdict(ctx, &m, "standard_algo");
    ctx.nontrivial = m.log.requests.get() > ids.len() as u64;
    watch(&m, allowed.clone());
    let rev = rng.chance(1, 2);
    let _ = read_off_diagram(&m, &v, rev);
    verdict(ctx, &m, "read_off_diagram");
    // reversed view of the same oracle
    watch(&m, allowed);
    let r = (&m).reverse();
    let v = standard_algo(&r);
    ensure!(v.columns.len() == r.basis().size(), "V of the reversed matrix has {} columns", v.columns.len());
    verdict(ctx, &m, "standard_algo on the reversed matrix");
    ctx.max("largest_complex", n as u64);
}

fn clearing<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng, size: Size) {
    let cx = gen::complex(rng, CF::P, size, F::TRIVIAL);
    let n = cx.n();
    let md = cx.max_dim();
    let (pairs, _) = cx.pairing();
    let cob = cx.coboundary_cols();
    let a = rng.below(md + 1);
    let b = rng.range(a, md);
    let (a, b) = if rng.chance(1, 3) { (0, md) } else { (a, b) };
    let mode = rng.below(2);
    let case = Case::<L, F>::new(cx, rng);
    let style = Style::draw(rng);
    let concat = rng.chance(1, 2);
    ctx.describe(|| format!("clearing {} {} {} {} dims={a}..={b} mode={mode} {style:?}", CF::NAME, L::NAME, F::NAME, case.cx.brief()));
    ctx.sig(&format!("c{mode}{a}{b}{}", case.cx.fingerprint()));
    let m = case.oracle::<CF>(if mode == 0 { &case.cx.cols } else { &cob }, case.basis(concat), style, rng);
    let inr = |j: usize| case.cx.dim[j] >= a && case.cx.dim[j] <= b;
    let mut allowed: Vec<bool> = (0..n).map(inr).collect();
    let mut cleared = 0;
    for (x, y) in &pairs {
        // (row, column) of a pair: (birth, death) for the boundary, swapped for the coboundary
        let (row, col) = if mode == 0 { (*x, *y) } else { (*y, *x) };
        if inr(col) {
            if inr(row) {
                cleared += 1;
            }
            allowed[row] = false;
        }
    }
    watch(&m, allowed);
    let (v, dgm) = if mode == 0 {
        let (v, d) = ClearedReductionMatrix::build_with_diagram(&m, vcore::red::handed((a..=b).rev()));
        (v.columns_len(), dgm_ids(&d, |l: L| case.id(l)))
    } else {
        let r = (&m).reverse();
        let (v, d) = ClearedReductionMatrix::build_with_diagram(&r, vcore::red::handed(a..=b));
        (v.columns_len(), dgm_ids(&d, |l: Reverse<L>| case.id(l.0)))
    };
    let _ = (v, dgm);
    verdict(ctx, &m, "clearing");
    ctx.add("columns_cleared_without_being_read", cleared);
    ctx.nontrivial = cleared > 0;
    ctx.max("largest_complex", n as u64);
}

trait Len {
    fn columns_len(&self) -> usize;
}
impl<T: HasColBasis> Len for T {
    fn columns_len(&self) -> usize {
        self.basis().size()
    }
}

fn main() {
    vcore::driver::run("C12", gen::self_check, |ctx, rng, idx| {
        dispatch!(idx as usize, case(ctx, rng))
    })
}
