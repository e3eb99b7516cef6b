//! C06: annotated columns agree with plain columns and reported filtration values, everywhere.
use ordered_float::NotNan;
use phlite::fields::*;
use phlite::matrices::adaptors::MatrixWithBasis;
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::{ColBasis, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use phlite::reduction::{standard_algo, ClearedReductionMatrix};
use phlite_grpph::boundary::GrPPHBoundary;
use phlite_grpph::coboundary::{DigraphFiltration, GrPPHCoboundary, PathHomCell, PathHomSingleBasis};
use phlite_rips::cohomology::build_rips_coboundary_matrix;
use phlite_rips::homology::build_rips_boundary_matrix;
use phlite_rips::RipsIndex;
use std::collections::BTreeSet;
use vcore::field::TField;
use vcore::labels::{Lab, TFil, TLabel};
use vcore::mon::Style;
use vcore::spec::*;
use vcore::{rips, stack, Ctx, Rng};
use vh_grpph::*;

fn obs(ctx: &mut Ctx) -> Obs<'_> {
    Obs { ctx, agreement_only: true }
}

/// Every basis column of a matrix and of the views the library offers on it.
fn views<M>(o: &mut Obs, m: &M, cols: &[M::ColT], what: &str)
where
    M: HasRowFiltration<CoefficientField: TField, ColT: El + std::hash::Hash, RowT: El, FiltrationT: Fv>,
{
    for c in cols {
        o.agree(m, *c, None, what);
        o.agree(&m.cache_cols(), *c, None, &format!("{what}.cache_cols()"));
        o.agree(&m.consolidate(), *c, None, &format!("{what}.consolidate()"));
        o.agree(&m.consolidate().cache_cols(), *c, None, &format!("{what}.consolidate().cache_cols()"));
        o.agree(&m.reverse(), std::cmp::Reverse(*c), None, &format!("{what}.reverse()"));
        o.agree(&m.reverse().consolidate().unreverse(), *c, None, &format!("{what}.reverse().consolidate().unreverse()"));
        o.agree(&m.with_trivial_filtration(), *c, None, &format!("{what}.with_trivial_filtration()"));
        o.agree(&m.with_basis(vec![*c]).using_col_basis_index(), 0, None, &format!("{what}.with_basis(vec).using_col_basis_index()"));
    }
    let cache = m.cache_cols();
    for c in cols.iter().chain(cols.iter().rev()) {
        o.agree(&cache, *c, None, &format!("{what} in one cache"));
    }
    o.ctx.add("views_compared", 8 * cols.len() as u64);
}

/// A matrix by itself, with the columns it annotates in its own way (the wrapper that attaches a
/// basis, and a reference, annotate columns in the default way), and what forwards to that.
fn bare<M>(o: &mut Obs, make: impl Fn() -> M, cols: &[M::ColT], what: &str)
where
    M: HasRowFiltration<CoefficientField: TField, ColT: El + std::hash::Hash, RowT: El, FiltrationT: Fv>,
{
    let m = make();
    let rev = make().reverse();
    let back = MatrixOracle::unreverse(make().reverse());
    let cached = make().reverse().cache_cols();
    for c in cols {
        o.agree(&m, *c, None, &format!("bare {what}"));
        o.agree(&rev, std::cmp::Reverse(*c), None, &format!("reverse of bare {what}"));
        o.agree(&back, *c, None, &format!("unreverse of reverse of bare {what}"));
        o.agree(&cached, std::cmp::Reverse(*c), None, &format!("cached reverse of bare {what}"));
    }
    views(o, &m, &cols[..cols.len().min(3)], &format!("bare {what}"));
    o.ctx.add("bare_columns", cols.len() as u64);
}

fn user<CF: TField, C: TLabel, R: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng, s: Spec<C, R, F>) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    ctx.sig(&format!("{s:?}"));
    ctx.describe(|| s.brief());
    ctx.nontrivial = true;
    let depth = rng.range(1, 5);
    stack::wrappers::<CF, C, R, F>(&mut obs(ctx), rng, s, depth);
    ctx.add("user_matrices", 1);
}

fn combined<CF: TField, C: TLabel, R: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    let sz = if rng.chance(1, 30) { 40 } else { 8 };
    let (cl, rl) = (C::table(rng.range(1, sz), rng), R::table(rng.range(1, sz), rng));
    let sa = random_spec_on::<CF, C, R, F>(rng, &cl, &rl);
    let sb = random_spec_on::<CF, C, C, usize>(rng, &cl, &cl);
    let sc = random_spec_on::<CF, C, C, ()>(rng, &cl, &cl);
    ctx.sig(&format!("{sa:?}{sb:?}"));
    ctx.describe(|| format!("A {} B {}", sa.brief(), sb.brief()));
    ctx.nontrivial = true;
    let a = Dyn::<CF, C, R, F>::from_spec(&sa, Style::draw(rng), Style::draw(rng), rng);
    let b = Dyn::<CF, C, C, usize>::from_spec(&sb, Style::draw(rng), Style::draw(rng), rng);
    let c = Dyn::<CF, C, C, ()>::from_spec(&sc, Style::draw(rng), Style::draw(rng), rng);
    let mut o = obs(ctx);
    let o = &mut o;
    let fil = random_fil::<R, F>(rng, &rl);
    let g = |r: R| fil[&r];
    views(o, &product(&a, &b), &cl, "AB");
    match rng.below(4) {
        0 => views(o, &product((&a).consolidate(), product(&b, &c)), &cl, "cons(A)(BC)"),
        1 => views(o, &product(&a, sum(&b, &c)), &cl, "A(B+C)"),
        2 => views(o, &sum(product(&a, &b), product(&a, &c)).with_filtration(g), &cl, "(AB+AC) filtered"),
        _ => views(o, &product((&a).with_filtration(g), (&b).cache_cols()), &cl, "filtered(A) cache(B)"),
    }
    o.ctx.add("combinations", 2);
    // sub-matrices
    let m = MatrixWithBasis::new(&a, sb.dim_basis());
    let d = rng.below(sb.subs.len());
    views(o, &m.sub_matrix_in_dimension(d), &sb.subs[d], "sub_matrix_in_dimension");
}

fn reduced<CF: TField>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    // R = DV for both kinds of reduction matrix
    let sz = stack::size(rng);
    let s = complex_spec::<CF, usize, isize>(rng, sz);
    ctx.sig(&format!("{s:?}"));
    ctx.describe(|| s.brief());
    ctx.nontrivial = true;
    let d = Dyn::<CF, usize, usize, isize>::from_spec(&s, Style::draw(rng), Style::draw(rng), rng);
    let v = standard_algo(&d);
    let some: Vec<usize> = s.flat.iter().copied().filter(|_| s.flat.len() < 30 || rng.chance(1, 6)).collect();
    views(&mut obs(ctx), &product(&d, &v), &some, "DV");
    views(&mut obs(ctx), &(&v).with_filtration(|r| s.fil[&r]), &some, "V filtered");
    ctx.add("reduced_matrices", 1);
}

fn rips_case<CF: TField>(ctx: &mut Ctx, rng: &mut Rng) {
    let n = if rng.chance(1, 20) { rng.range(9, 40) } else { rng.range(1, 8) };
    let d = rips::matrix(rng, n);
    let md = if n > 8 { rng.below(2) } else { rng.below(4) };
    ctx.sig(&format!("{}{md}{d:?}", CF::NAME));
    ctx.describe(|| format!("{} max_dim={md} {d:?}", CF::NAME));
    ctx.nontrivial = n > 1;
    let bd = build_rips_boundary_matrix::<CF>(vcore::ripslib::nn(&d), md);
    let cob = build_rips_coboundary_matrix::<CF>(vcore::ripslib::nn(&d), md);
    let mut o = obs(ctx);
    let o = &mut o;
    let pick = |all: Vec<RipsIndex>, rng: &mut Rng| -> Vec<RipsIndex> {
        if all.len() <= 40 { all } else { rng.subset(all.len(), 12).into_iter().map(|i| all[i]).collect() }
    };
    for k in 0..=md {
        let b = pick(read_basis(bd.basis().in_dimension(k)), rng);
        let c = pick(read_basis(cob.basis().in_dimension(k)), rng);
        views(o, &bd, &b, "Rips boundary");
        views(o, &cob, &c, "Rips coboundary");
        views(o, &(&bd).sub_matrix_in_dimension(k), &b, "Rips boundary in one dimension");
        views(o, &product(&cob, &cob), &c[..c.len().min(3)], "Rips coboundary squared");
        bare(o, || build_rips_boundary_matrix::<CF>(vcore::ripslib::nn(&d), 0).matrix, &b, "Rips boundary");
        bare(o, || build_rips_coboundary_matrix::<CF>(vcore::ripslib::nn(&d), 0).matrix, &c, "Rips coboundary");
        let (x, y) = (build_rips_coboundary_matrix::<CF>(vcore::ripslib::nn(&d), 0).matrix, build_rips_coboundary_matrix::<CF>(vcore::ripslib::nn(&d), 0).matrix);
        let xy = product(x, y);
        let yx = product(build_rips_boundary_matrix::<CF>(vcore::ripslib::nn(&d), 0).matrix, build_rips_coboundary_matrix::<CF>(vcore::ripslib::nn(&d), 0).matrix);
        for i in c.iter().take(6) {
            o.agree(&xy, *i, None, "square of bare Rips coboundary");
            o.agree(&yx, *i, None, "bare Rips boundary times coboundary");
        }
    }
    // larger simplices than the basis has
    for _ in 0..4 {
        let len = rng.range(1, n.min(9));
        if let Some(s) = RipsIndex::from_indices(rng.subset(n, len).into_iter(), n) {
            views(o, &bd, &[s], "Rips boundary");
            views(o, &cob, &[s], "Rips coboundary");
            bare(o, || build_rips_coboundary_matrix::<CF>(vcore::ripslib::nn(&d), 0).matrix, &[s], "Rips coboundary");
            bare(o, || build_rips_boundary_matrix::<CF>(vcore::ripslib::nn(&d), 0).matrix, &[s], "Rips boundary");
        }
    }
    if rng.chance(1, 3) {
        let r = (&cob).reverse();
        let (v, _) = ClearedReductionMatrix::build_with_diagram(&r, vcore::red::handed(0..=md));
        let cols: Vec<_> = read_basis(v.basis().in_dimension(0));
        views(o, &product(&r, &v), &cols, "reduced Rips coboundary");
    }
    o.ctx.add("rips_complexes", 1);
}

fn grpph_case<CF: TField, F: DigraphFiltration>(ctx: &mut Ctx, rng: &mut Rng, dg: &Dg, fil: &F) {
    ctx.sig(&format!("{}{dg:?}", CF::NAME));
    ctx.describe(|| format!("{} {dg:?}", CF::NAME));
    ctx.nontrivial = dg.time.len() > 1;
    let es = dg.edge_set();
    let cob = GrPPHCoboundary::<CF, _>::build(fil, &es, dg.n);
    let mut o = obs(ctx);
    let o = &mut o;
    let basis = cob.basis();
    let all: Vec<PathHomCell> = (0..ColBasis::size(basis)).map(|i| basis.element(i)).collect();
    let some: Vec<PathHomCell> = if all.len() < 60 { all.clone() } else { rng.subset(all.len(), 15).into_iter().map(|i| all[i]).collect() };
    views(o, &cob, &some, "path coboundary");
    bare(o, || GrPPHCoboundary::<CF, _>::build(fil, &es, dg.n).matrix, &some, "path coboundary");
    views(o, &(&cob).sub_matrix_in_dimension(1), &some.iter().copied().filter(|c| c.dimension() == 1).collect::<Vec<_>>(), "path coboundary of edges");
    let mut cells: BTreeSet<PathHomCell> = all.iter().copied().collect();
    for c in &some {
        cells.extend(cob.column(*c).map(|(_, r)| r));
    }
    let cells: Vec<PathHomCell> = cells.into_iter().collect();
    let some: Vec<PathHomCell> = if cells.len() < 80 { cells.clone() } else { rng.subset(cells.len(), 30).into_iter().map(|i| cells[i]).collect() };
    let bd = GrPPHBoundary::<CF, _>::build(fil, &es, PathHomSingleBasis(cells.iter().map(|c| (NotNan::new(0.0).unwrap(), *c)).collect()));
    views(o, &bd, &some, "path boundary");
    bare(o, || GrPPHBoundary::<CF, _>::build(fil, &es, PathHomSingleBasis(vec![])).matrix, &some, "path boundary");
    let prod = product(GrPPHBoundary::<CF, _>::build(fil, &es, PathHomSingleBasis(vec![])).matrix, GrPPHCoboundary::<CF, _>::build(fil, &es, dg.n).matrix);
    for c in some.iter().filter(|c| c.dimension() < 2).take(12) {
        o.agree(&prod, *c, None, "path boundary times coboundary");
    }
    o.ctx.add("path_homology_cells", some.len() as u64);
    o.ctx.add("digraphs", 1);
}

fn grpph<CF: TField>(ctx: &mut Ctx, rng: &mut Rng) {
    let hi = if rng.chance(1, 40) { 24 } else { 7 };
    let dg = random(rng, hi);
    if rng.chance(1, 2) {
        grpph_case::<CF, _>(ctx, rng, &dg, &dg.table())
    } else {
        grpph_case::<CF, _>(ctx, rng, &dg, &dg.map())
    }
}

fn main() {
    vcore::driver::run("C06", vcore::gen::self_check, |ctx, rng, idx| match idx % 10 {
        0 => {
            let sz = stack::size(rng);
            let s = random_spec::<Z7, Lab, usize, NotNan<f64>>(rng, sz);
            user::<Z7, _, _, _>(ctx, rng, s)
        }
        1 => {
            let sz = stack::size(rng);
            let s = random_spec::<Z3, isize, Lab, ()>(rng, sz);
            user::<Z3, _, _, _>(ctx, rng, s)
        }
        2 => combined::<Z5, Lab, usize, isize>(ctx, rng),
        3 => combined::<Z2, usize, Lab, NotNan<f64>>(ctx, rng),
        4 => reduced::<Z3>(ctx, rng),
        5 => rips_case::<Z2>(ctx, rng),
        6 => rips_case::<Z13>(ctx, rng),
        7 => rips_case::<Q>(ctx, rng),
        8 => grpph::<Z3>(ctx, rng),
        _ => grpph::<Z2>(ctx, rng),
    });
}
