//! C08: the clearing algorithm returns a genuine R = DV decomposition.
use phlite::matrices::{ColBasis, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension, SquareMatrix};
use phlite::reduction::ClearedReductionMatrix;
use std::cmp::Reverse;
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::Hash;
use vcore::algebra::SVec;
use vcore::driver::viol;
use vcore::field::TField;
use vcore::gen::{self, Size};
use vcore::labels::{TFil, TLabel};
use vcore::mon::{dec_ids, Case, Style};
use vcore::red::*;
use vcore::{dispatch, ensure, ensure_eq, Ctx, Rng};

struct Want<'a> {
    dcols: &'a [SVec<usize>],
    /// reduction order in each dimension
    order: &'a dyn Fn(usize) -> Vec<usize>,
    rank: &'a [usize],
    /// columns that are births of pairs whose death column is in range
    births: &'a dyn Fn(usize) -> bool,
    dims: Vec<usize>,
    what: &'static str,
}

fn check<M>(ctx: &mut Ctx, m: &M, w: Want, id: impl Fn(M::ColT) -> usize + Copy, lab: impl Fn(usize) -> M::ColT)
where
    M: SquareMatrix + HasRowFiltration + HasColBasis,
    M::BasisT: SplitByDimension,
    M::CoefficientField: TField,
    M::ColT: Hash + Debug + 'static,
    M::RowT: 'static,
    M::FiltrationT: Clone,
{
    let (v, dgm) = ClearedReductionMatrix::build_with_diagram(m, vcore::red::handed(w.dims.iter().copied()));
    let _ = dgm;
    let f = M::CoefficientField::fld();
    for &d in &w.dims {
        let order = (w.order)(d);
        let mut vcols: HashMap<usize, SVec<usize>> = HashMap::new();
        for &j in &order {
            vcols.insert(j, dec_ids(v.column(lab(j)), id));
        }
        let r = check_rdv(w.what, w.dcols, &vcols, &order, w.rank, f);
        for &j in &order {
            let cyc = v.col_is_cycle(lab(j));
            ensure_eq!(cyc, r[&j].1.is_none(), "{}: col_is_cycle({j})", w.what);
            if (w.births)(j) {
                ensure!(cyc, "{}: cleared column {j} is not a cycle", w.what);
                ctx.add("cleared_columns_checked", 1);
                if vcols[&j].len() > 1 {
                    ctx.add("cleared_columns_with_several_terms", 1);
                }
            } else if vcols[&j].len() > 1 {
                ctx.add("reduced_columns_with_additions", 1);
            }
            ctx.add("columns_of_V_checked", 1);
        }
    }
    // V is equipped with the basis of the matrix
    let (vb, mb) = (v.basis(), m.basis());
    ensure_eq!(vb.size(), mb.size(), "{}: size of the basis of V", w.what);
    for i in 0..mb.size().min(50) {
        ensure!(vb.element(i) == mb.element(i), "{}: basis of V differs at {i}", w.what);
    }
    // a borrowed view of V (clone) behaves the same
    if let Some(&j) = w.dims.first().and_then(|d| (w.order)(*d).last().copied()).as_ref() {
        let v2 = v.clone();
        let a = dec_ids(v2.column(lab(j)), id);
        let b = dec_ids(v.column(lab(j)), id);
        if a != b {
            viol(format!("{}: clone of V differs in column {j}", w.what));
        }
    }
}

fn case<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let size = Size::draw(rng);
    let cx = gen::complex(rng, CF::P, size, F::TRIVIAL);
    let n = cx.n();
    let md = cx.max_dim();
    let (pairs, _) = cx.pairing();
    let cob = cx.coboundary_cols();
    let mode = rng.below(3);
    let a = rng.below(md + 1);
    let b = rng.range(a, md);
    let (a, b) = if rng.chance(1, 2) { (0, md) } else { (a, b) };
    let style = Style::draw(rng);
    let concat = rng.chance(1, 2);
    ctx.describe(|| format!("{} {} {} {} mode={mode} dims={a}..={b} {style:?}", CF::NAME, L::NAME, F::NAME, cx.brief()));
    ctx.sig(&format!("{}{mode}{a}{b}", cx.fingerprint()));
    let rank = cx.row_rank();
    let before = ctx.counters.get("cleared_columns_with_several_terms").copied().unwrap_or(0);
    match mode {
        0 | 1 => {
            // boundary, descending; or the same complex graded so that the differential raises dimension
            let mut cx = cx;
            let dims: Vec<usize> = if mode == 0 {
                (a..=b).rev().collect()
            } else {
                for d in cx.dim.iter_mut() {
                    *d = md - *d;
                }
                (a..=b).collect()
            };
            let case = Case::<L, F>::new(cx, rng);
            let cols = case.cx.cols.clone();
            let m = case.oracle::<CF>(&cols, case.basis_padded(concat, md), style, rng);
            m.log.budget.set(m.poly_budget().min(1_000_000_000));
            let inr = |j: usize| case.cx.dim[j] >= a && case.cx.dim[j] <= b;
            let births: std::collections::HashSet<usize> =
                pairs.iter().filter(|(_, d)| inr(*d)).map(|(b, _)| *b).collect();
            let w = Want {
                dcols: &cols,
                order: &|d| case.cx.in_dim(d),
                rank: &rank,
                births: &|j| births.contains(&j),
                dims,
                what: if mode == 0 { "clearing on boundary" } else { "clearing on raising differential" },
            };
            check(ctx, &m, w, |l| case.id(l), |i| case.labels[i]);
            ctx.add("oracle_column_requests", m.log.requests.get());
        }
        _ => {
            let case = Case::<L, F>::new(cx, rng);
            let m = case.oracle::<CF>(&cob, case.basis(concat), style, rng);
            m.log.budget.set(m.poly_budget().min(1_000_000_000));
            let rev = (&m).reverse();
            let rrank: Vec<usize> = rank.iter().map(|x| n - 1 - x).collect();
            let inr = |j: usize| case.cx.dim[j] >= a && case.cx.dim[j] <= b;
            let births: std::collections::HashSet<usize> =
                pairs.iter().filter(|(b, _)| inr(*b)).map(|(_, d)| *d).collect();
            let w = Want {
                dcols: &cob,
                order: &|d| case.cx.in_dim(d).into_iter().rev().collect(),
                rank: &rrank,
                births: &|j| births.contains(&j),
                dims: (a..=b).collect(),
                what: "clearing on reversed coboundary",
            };
            check(ctx, &rev, w, |l: Reverse<L>| case.id(l.0), |i| Reverse(case.labels[i]));
            ctx.add("oracle_column_requests", m.log.requests.get());
        }
    }
    ctx.max("largest_complex", n as u64);
    ctx.max("highest_dimension", md as u64);
    if ctx.counters.get("cleared_columns_with_several_terms").copied().unwrap_or(0) > before
        || ctx.counters.get("reduced_columns_with_additions").copied().unwrap_or(0) > 0
    {
        ctx.nontrivial = true;
    }
}

fn main() {
    vcore::driver::run("C08", gen::self_check, |ctx, rng, idx| {
        dispatch!(idx as usize, case(ctx, rng))
    })
}
