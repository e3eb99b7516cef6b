//! C22: the two-cells present at any time form a basis of the invariant two-paths.
use ordered_float::NotNan;
use phlite::fields::*;
use phlite::matrices::{ColBasis, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use phlite_grpph::coboundary::{DigraphFiltration, GrPPHCoboundary, PathHom2Cell, PathHomCell};
use std::collections::{BTreeMap, BTreeSet};
use vcore::algebra::{add_term, rank, SVec};
use vcore::field::TField;
use vcore::{ensure, ensure_eq, Ctx, Rng};
use vh_grpph::*;

fn case<CF: TField, F: DigraphFiltration>(ctx: &mut Ctx, rng: &mut Rng, dg: &Dg, fil: &F) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let f = CF::fld();
    let es = dg.edge_set();
    let cob = GrPPHCoboundary::<CF, _>::build(fil, &es, dg.n);
    ctx.sig(&format!("{}{dg:?}", CF::NAME));
    ctx.describe(|| format!("{} {dg:?}", CF::NAME));
    ctx.max("most_vertices", dg.n as u64);
    // ---- the cells the coboundary produces, with the value they are annotated with
    let mut cells: BTreeMap<PathHom2Cell, NotNan<f64>> = BTreeMap::new();
    let b = cob.basis().in_dimension(1);
    for i in 0..b.size() {
        let e = b.element(i);
        for x in cob.column_with_filtration(e) {
            let c = cell_of(&x.row_index);
            let old = cells.insert(c, x.filtration_value);
            ensure!(old.is_none_or(|o| o == x.filtration_value), "{c:?} is annotated with {old:?} and {:?}", x.filtration_value);
        }
        let plain: BTreeSet<PathHom2Cell> = cob.column(e).map(|(_, r)| cell_of(&r)).collect();
        for c in plain {
            ensure!(cells.contains_key(&c), "{c:?} is only listed without a filtration value");
        }
    }
    for (c, x) in &cells {
        let y = cob.filtration_value(PathHomCell::TwoCell(*c));
        ensure!(y == *x, "{c:?} is annotated with {x}, its filtration value is {y}");
    }
    // ---- at every critical time, and between them
    let mut times = dg.critical();
    if times.len() > 12 {
        times = rng.subset(times.len(), 12).into_iter().map(|i| times[i]).collect();
    }
    for k in (1..times.len()).rev() {
        let mid = times[k - 1] / 2.0 + times[k] / 2.0;
        if rng.chance(1, 3) && mid > times[k - 1] && mid < times[k] {
            times.insert(k, mid);
        }
    }
    for t in times {
        let paths: BTreeSet<TwoPath> = allowed(dg, t).into_iter().collect();
        let present: Vec<&PathHom2Cell> = cells.iter().filter(|(_, v)| v.into_inner() <= t).map(|x| x.0).collect();
        let mut vecs: Vec<SVec<TwoPath>> = vec![];
        for c in &present {
            let mut v = SVec::new();
            let mut out: SVec<Edge> = SVec::new();
            for (x, p) in two_paths(c) {
                ensure!(paths.contains(&p), "{c:?} enters at {t} or before, but the two-path {p:?} is not there yet");
                add_term(&mut v, p, f.int(x), f);
                if let Some(e) = outside(dg, t, &p) {
                    add_term(&mut out, e, f.int(x), f);
                }
            }
            ensure!(out.is_empty(), "{c:?} enters at {t} or before, but its boundary contains {:?}, not present yet", out.keys());
            vecs.push(v);
        }
        // dimension of the invariant two-paths: two-paths minus the rank of the part outside
        let constraints = paths.iter().map(|p| {
            outside(dg, t, p).map(|e| SVec::from([(e, f.int(1))])).unwrap_or_default()
        });
        let dim = paths.len() - rank(constraints, f);
        let r = rank(vecs.clone(), f);
        ensure_eq!(r, vecs.len(), "rank of the {} two-cells with value at most {t}", vecs.len());
        ensure_eq!(vecs.len(), dim, "two-cells with value at most {t} against the dimension of the invariant two-paths");
        ctx.add("times_checked", 1);
        ctx.add("cells_at_times", vecs.len() as u64);
        ctx.add("two_paths_outside", paths.iter().filter(|p| outside(dg, t, p).is_some()).count() as u64);
        ctx.max("largest_dimension", dim as u64);
    }
    ctx.nontrivial = cells.len() > 1;
}

fn draw<CF: TField>(ctx: &mut Ctx, rng: &mut Rng) {
    let hi = if rng.chance(1, 40) { 20 } else { 9 };
    let dg = random(rng, hi);
    if rng.chance(1, 2) {
        case::<CF, _>(ctx, rng, &dg, &dg.table())
    } else {
        case::<CF, _>(ctx, rng, &dg, &dg.map())
    }
}

fn main() {
    vcore::driver::run("C22", || {}, |ctx, rng, idx| match idx % 3 {
        0 => draw::<Z2>(ctx, rng),
        1 => draw::<Z3>(ctx, rng),
        _ => draw::<Q>(ctx, rng),
    });
}
