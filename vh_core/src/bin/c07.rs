//! C07: the standard algorithm returns a genuine R = DV decomposition.
use phlite::matrices::MatrixOracle;
use std::cmp::Reverse;
use vcore::field::TField;
use vcore::gen::{self, Size};
use vcore::labels::{TFil, TLabel};
use vcore::mon::{Case, DimBasis, Style, SubBasis};
use vcore::red::*;
use vcore::{dispatch, Ctx, Rng};

fn case<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let size = Size::draw(rng);
    let cx = match rng.below(10) {
        0..=4 => gen::arbitrary_square(rng, CF::P, size, F::TRIVIAL),
        _ => gen::complex(rng, CF::P, size, F::TRIVIAL),
    };
    let n = cx.n();
    let f = cx.f;
    let coboundary = cx.kind != "arbitrary square" && rng.chance(1, 3);
    let cols = if coboundary { cx.coboundary_cols() } else { cx.cols.clone() };
    let case = Case::<L, F>::new(cx, rng);
    // order of the basis: sorted, shuffled, or a subset of the labels
    let mut order: Vec<usize> = (0..n).collect();
    let kind = rng.below(4);
    match kind {
        0 => order.sort_by_key(|i| (case.cx.lvl[*i], *i)),
        1 => {}
        2 => rng.shuffle(&mut order),
        _ => {
            rng.shuffle(&mut order);
            order.truncate(n - n / 3);
        }
    }
    let flat: Vec<L> = order.iter().map(|i| case.labels[*i]).collect();
    let basis = DimBasis { subs: vec![SubBasis(flat.clone())], flat };
    let style = Style::draw(rng);
    let m = case.oracle::<CF>(&cols, basis, style, rng);
    m.log.budget.set(m.poly_budget().min(1_000_000_000));
    ctx.describe(|| format!("{} {} {} {} coboundary={coboundary} basis={kind} {style:?}", CF::NAME, L::NAME, F::NAME, case.cx.brief()));
    ctx.sig(&format!("{}{kind}{coboundary}{order:?}", case.cx.fingerprint()));
    let rank = case.cx.row_rank();
    let (_, v) = standard_v(&m, &order, |l| case.id(l), |i| case.labels[i]);
    let r = check_rdv("standard", &cols, &v, &order, &rank, f);
    let adds: usize = v.values().map(|c| c.len() - 1).sum();
    ctx.add("columns_of_V_checked", order.len() as u64);
    ctx.add("offdiagonal_entries_of_V", adds as u64);
    ctx.add("nonzero_columns_of_R", r.values().filter(|x| x.1.is_some()).count() as u64);
    ctx.add("oracle_column_requests", m.log.requests.get());
    ctx.max("largest_basis", n as u64);
    ctx.max("longest_V_column", v.values().map(|c| c.len()).max().unwrap_or(0) as u64);
    if adds > 0 {
        ctx.nontrivial = true;
        ctx.add("cases_with_additions", 1);
    }
    if rng.chance(1, 3) {
        // the reversed matrix is a square filtered matrix too
        m.reset_log();
        m.log.budget.set(m.poly_budget().min(1_000_000_000));
        let rev = (&m).reverse();
        let ord: Vec<usize> = order.iter().rev().copied().collect();
        let rrank: Vec<usize> = rank.iter().map(|x| n - 1 - x).collect();
        let (_, v) = standard_v(&rev, &ord, |l: Reverse<L>| case.id(l.0), |i| Reverse(case.labels[i]));
        check_rdv("standard on reversed", &cols, &v, &ord, &rrank, f);
        ctx.add("reversed_matrices", 1);
    }
}

fn main() {
    vcore::driver::run("C07", gen::self_check, |ctx, rng, idx| {
        dispatch!(idx as usize, case(ctx, rng))
    })
}
