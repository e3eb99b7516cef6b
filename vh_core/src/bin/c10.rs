//! C10: clearing yields exactly the persistence diagram of its dimension range.
use phlite::matrices::MatrixOracle;
use std::cmp::Reverse;
use vcore::field::TField;
use vcore::gen::{self, Size};
use vcore::labels::{TFil, TLabel};
use vcore::mon::{Case, Style};
use vcore::red::*;
use vcore::{dispatch, ensure, Ctx, Rng};

fn case<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let size = Size::draw(rng);
    let cx = gen::complex(rng, CF::P, size, F::TRIVIAL);
    let n = cx.n();
    let md = cx.max_dim();
    let (pairs, _) = cx.pairing();
    let cob = cx.coboundary_cols();
    let mode = rng.below(3);
    let style = Style::draw(rng);
    let concat = rng.chance(1, 2);
    ctx.describe(|| format!("{} {} {} {} mode={mode} {style:?}", CF::NAME, L::NAME, F::NAME, cx.brief()));
    // all ranges for small dimension, else a few
    let mut ranges: Vec<(usize, usize)> = vec![];
    for a in 0..=md {
        for b in a..=md {
            ranges.push((a, b));
        }
    }
    if size != Size::Tiny {
        rng.shuffle(&mut ranges);
        ranges.truncate(2);
        ranges.push((0, md));
    }
    ctx.sig(&format!("{}{mode}{ranges:?}", cx.fingerprint()));
    let mut cx = cx;
    if mode == 1 {
        for d in cx.dim.iter_mut() {
            *d = md - *d;
        }
    }
    let case = Case::<L, F>::new(cx, rng);
    let m = if mode == 2 {
        case.oracle::<CF>(&cob, case.basis_padded(concat, md), style, rng)
    } else {
        case.oracle::<CF>(&case.cx.cols, case.basis_padded(concat, md), style, rng)
    };
    let swapped: std::collections::BTreeSet<(usize, usize)> = pairs.iter().map(|(b, d)| (*d, *b)).collect();
    for (a, b) in ranges {
        m.reset_log();
        m.log.budget.set(m.poly_budget().min(1_000_000_000));
        let inr = |j: usize| case.cx.dim[j] >= a && case.cx.dim[j] <= b;
        let (want, got) = match mode {
            0 => (range_dgm(&pairs, inr, n), clearing_dgm(&m, (a..=b).rev(), |l: L| case.id(l))),
            1 => (range_dgm(&pairs, inr, n), clearing_dgm(&m, a..=b, |l: L| case.id(l))),
            _ => (
                range_dgm(&swapped, inr, n),
                clearing_dgm(&(&m).reverse(), a..=b, |l: Reverse<L>| case.id(l.0)),
            ),
        };
        ensure!(got == want, "clearing (mode {mode}) over dimensions {a}..={b}: {}", got.diff(&want));
        ctx.add("diagrams_compared", 1);
        ctx.add("pairs", want.pairs.len() as u64);
        ctx.add("essential", want.ess.len() as u64);
        if (a, b) != (0, md) {
            ctx.add("partial_ranges", 1);
        } else {
            // covers the whole basis: must agree with the standard algorithm
            m.reset_log();
            m.log.budget.set(m.poly_budget().min(1_000_000_000));
            let s = if mode == 2 {
                standard_dgm(&(&m).reverse(), false, |l: Reverse<L>| case.id(l.0))
            } else {
                standard_dgm(&m, false, |l: L| case.id(l))
            };
            ensure!(s == got, "clearing and standard disagree (mode {mode}): {}", got.diff(&s));
            ctx.add("agreements_with_standard", 1);
        }
        if want.pairs.iter().any(|(b, _)| inr(*b)) {
            ctx.add("runs_with_cleared_columns", 1);
            ctx.nontrivial = true;
        }
    }
    ctx.max("largest_complex", n as u64);
    ctx.max("highest_dimension", md as u64);
}

fn main() {
    vcore::driver::run("C10", gen::self_check, |ctx, rng, idx| {
        dispatch!(idx as usize, case(ctx, rng))
    })
}
