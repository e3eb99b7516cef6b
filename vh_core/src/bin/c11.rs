//! C11: homology and reversed cohomology give the same persistence pairs (and Rips complexes do too).
use ordered_float::NotNan;
use phlite::matrices::{HasRowFiltration, MatrixOracle};
use phlite_rips::cohomology::build_rips_coboundary_matrix;
use phlite_rips::homology::build_rips_boundary_matrix;
use phlite_rips::RipsIndex;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet};
use vcore::field::TField;
use vcore::gen::{self, Size};
use vcore::labels::{TFil, TLabel};
use vcore::mon::{Case, Style};
use vcore::red::*;
use vcore::{dispatch, ensure, Ctx, Rng};

fn case<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    if rng.chance(1, 4) {
        return rips::<CF>(ctx, rng);
    }
    let size = Size::draw(rng);
    let cx = gen::complex(rng, CF::P, size, F::TRIVIAL);
    let n = cx.n();
    let md = cx.max_dim();
    let cob = cx.coboundary_cols();
    ctx.describe(|| format!("{} {} {} {}", CF::NAME, L::NAME, F::NAME, cx.brief()));
    ctx.sig(&cx.fingerprint());
    let case = Case::<L, F>::new(cx, rng);
    let (s1, s2) = (Style::draw(rng), Style::draw(rng));
    let d = case.oracle::<CF>(&case.cx.cols, case.basis(true), s1, rng);
    let c = case.oracle::<CF>(&cob, case.basis(rng.chance(1, 2)), s2, rng);
    d.log.budget.set(d.poly_budget().min(1_000_000_000));
    c.log.budget.set(c.poly_budget().min(1_000_000_000));
    let rev = (&c).reverse();
    let h_std = standard_dgm(&d, false, |l: L| case.id(l));
    let h_clr = clearing_dgm(&d, (0..=md).rev(), |l: L| case.id(l));
    let c_std = standard_dgm(&rev, rng.chance(1, 2), |l: Reverse<L>| case.id(l.0));
    let c_clr = clearing_dgm(&rev, 0..=md, |l: Reverse<L>| case.id(l.0));
    ensure!(h_clr == h_std, "homology: clearing vs standard: {}", h_clr.diff(&h_std));
    ensure!(c_std.swapped() == h_std, "cohomology (standard) vs homology: {}", c_std.swapped().diff(&h_std));
    ensure!(c_clr.swapped() == h_std, "cohomology (clearing) vs homology: {}", c_clr.swapped().diff(&h_std));
    // un-reversed view of the reversed boundary is the boundary again
    let h_un = standard_dgm(&(&d).reverse().unreverse(), false, |l: L| case.id(l));
    ensure!(h_un == h_std, "un-reversed boundary: {}", h_un.diff(&h_std));
    ctx.add("diagrams_compared", 4);
    ctx.add("pairs", h_std.pairs.len() as u64);
    ctx.add("essential", h_std.ess.len() as u64);
    ctx.max("largest_complex", n as u64);
    ctx.nontrivial = !h_std.pairs.is_empty();
}

/// Rips: pairs of simplices agree in every degree both computations cover.
fn rips<CF: TField>(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.range(1, 7);
    let md = rng.below(4);
    let dist = vcore::rips::matrix(rng, n);
    ctx.describe(|| format!("Rips {} max_dim={md} {dist:?}", CF::NAME));
    ctx.sig(&format!("{md}{dist:?}"));
    let nn: Vec<Vec<NotNan<f64>>> = dist.iter().map(|r| r.iter().map(|x| NotNan::new(*x).unwrap()).collect()).collect();
    let d = build_rips_boundary_matrix::<CF>(nn.clone(), md);
    let c = build_rips_coboundary_matrix::<CF>(nn, md);
    let rev = (&c).reverse();
    let key = |r: RipsIndex| r.to_vec(n);
    type Pairs = BTreeSet<(Vec<usize>, Vec<usize>)>;
    type Dg = (Pairs, BTreeSet<Vec<usize>>);
    let plain = |dg: &phlite::reduction::Diagram<RipsIndex>| -> Dg {
        (dg.pairings.iter().map(|(b, d)| (key(*b), key(*d))).collect(), dg.essential.iter().map(|e| key(*e)).collect())
    };
    let swap = |dg: &phlite::reduction::Diagram<Reverse<RipsIndex>>| -> Dg {
        (dg.pairings.iter().map(|(b, d)| (key(d.0), key(b.0))).collect(), dg.essential.iter().map(|e| key(e.0)).collect())
    };
    use phlite::reduction::{standard_algo_with_diagram, ClearedReductionMatrix};
    let h1 = plain(&standard_algo_with_diagram(&d, false).1);
    let h2 = plain(&ClearedReductionMatrix::build_with_diagram(&d, vcore::red::handed((0..=md).rev())).1);
    let c1 = swap(&standard_algo_with_diagram(&rev, true).1);
    let c2 = swap(&ClearedReductionMatrix::build_with_diagram(&rev, vcore::red::handed(0..=md)).1);
    let cut = |x: &Dg| -> BTreeMap<&'static str, BTreeSet<(Vec<usize>, Vec<usize>)>> {
        let mut m = BTreeMap::new();
        m.insert("pairs", x.0.iter().filter(|p| p.0.len() <= md).cloned().collect());
        m.insert("essential", x.1.iter().filter(|p| p.len() <= md).map(|p| (p.clone(), vec![])).collect());
        m
    };
    ensure!(h1 == h2, "Rips homology: standard {h1:?} vs clearing {h2:?}");
    ensure!(c1 == c2, "Rips cohomology: standard {c1:?} vs clearing {c2:?}");
    ensure!(cut(&h1) == cut(&c1), "Rips homology {:?} vs cohomology {:?} below degree {md}", cut(&h1), cut(&c1));
    for (b, dd) in &h1.0 {
        let idx = |v: &Vec<usize>| RipsIndex::from_indices(v.iter().copied(), n).unwrap();
        ensure!(d.filtration_value(idx(b)) <= d.filtration_value(idx(dd)), "pair {b:?} {dd:?} dies before it is born");
    }
    ctx.add("rips_complexes", 1);
    ctx.add("rips_pairs", h1.0.len() as u64);
    ctx.nontrivial = h1.0.len() > 1;
}

fn main() {
    vcore::driver::run("C11", gen::self_check, |ctx, rng, idx| {
        dispatch!(idx as usize, case(ctx, rng))
    })
}
