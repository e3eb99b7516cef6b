//! C09: the standard persistence diagram is the unique correct pairing, in either read-off direction.
use phlite::matrices::MatrixOracle;
use std::cmp::Reverse;
use vcore::field::TField;
use vcore::gen::{self, Size};
use vcore::labels::{TFil, TLabel};
use vcore::mon::{Case, Style};
use vcore::red::*;
use vcore::{dispatch, ensure, Ctx, Rng};

fn case<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let size = Size::draw(rng);
    let cx = gen::complex(rng, CF::P, size, F::TRIVIAL);
    let n = cx.n();
    let (pairs, _) = cx.pairing();
    if let Some(pl) = &cx.planted {
        let pl: std::collections::BTreeSet<_> = pl.iter().copied().collect();
        assert_eq!(pl, pairs, "reference disagrees with planted barcode");
        ctx.add("planted_barcodes", 1);
    }
    let expected = range_dgm(&pairs, |_| true, n);
    let cob = cx.coboundary_cols();
    let reversed = rng.chance(2, 5);
    let style = Style::draw(rng);
    let concat = rng.chance(1, 2);
    ctx.describe(|| format!("{} {} {} {} reversed_coboundary={reversed} {style:?}", CF::NAME, L::NAME, F::NAME, cx.brief()));
    ctx.sig(&format!("{}{reversed}", cx.fingerprint()));
    let case = Case::<L, F>::new(cx, rng);
    let (want, got) = if reversed {
        let m = case.oracle::<CF>(&cob, case.basis(concat), style, rng);
        m.log.budget.set(m.poly_budget().min(1_000_000_000));
        let rev = (&m).reverse();
        (expected.swapped(), standard_dgms(&rev, |l: Reverse<L>| case.id(l.0)))
    } else {
        let m = case.oracle::<CF>(&case.cx.cols, case.basis(concat), style, rng);
        m.log.budget.set(m.poly_budget().min(1_000_000_000));
        (expected.clone(), standard_dgms(&m, |l: L| case.id(l)))
    };
    for (what, d) in got {
        ensure!(d == want, "{what}{}: diagram differs from the unique pairing: {}", if reversed { " of the reversed coboundary" } else { "" }, d.diff(&want));
        // every basis element plays exactly one role
        let mut role = vec![0; n];
        for (b, x) in &d.pairs {
            role[*b] += 1;
            role[*x] += 1;
        }
        for e in &d.ess {
            role[*e] += 1;
        }
        ensure!(role.iter().all(|r| *r == 1), "{what}: roles {role:?}");
        ctx.add("diagrams_compared", 1);
    }
    ctx.add("pairs", want.pairs.len() as u64);
    ctx.add("essential", want.ess.len() as u64);
    ctx.add(if reversed { "reversed_coboundaries" } else { "boundaries" }, 1);
    ctx.max("largest_complex", n as u64);
    ctx.max("most_pairs", want.pairs.len() as u64);
    ctx.nontrivial = !want.pairs.is_empty() && !want.ess.is_empty();
}

fn main() {
    vcore::driver::run("C09", gen::self_check, |ctx, rng, idx| {
        dispatch!(idx as usize, case(ctx, rng))
    })
}
