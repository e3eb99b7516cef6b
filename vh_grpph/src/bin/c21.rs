//! C21: path-homology boundary and coboundary are consistent chain maps.
use ordered_float::NotNan;
use phlite::fields::*;
use phlite::matrices::combinators::product;
use phlite::matrices::{ColBasis, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use phlite_grpph::boundary::GrPPHBoundary;
use phlite_grpph::coboundary::{DigraphFiltration, GrPPHCoboundary, PathHomCell, PathHomSingleBasis};
use std::collections::{BTreeMap, BTreeSet};
use vcore::algebra::SVec;
use vcore::field::TField;
use vcore::mon::dec_keys;
use vcore::spec::read_basis;
use vcore::{ensure, ensure_eq, Ctx, Rng};
use vh_grpph::*;
use PathHomCell::{Edge as E1, Node, TwoCell};

fn neg<K: Ord + Copy>(v: &SVec<K>, f: vcore::field::Fld) -> SVec<K> {
    v.iter().map(|(k, x)| (*k, f.neg(*x))).collect()
}

fn case<CF: TField, F: DigraphFiltration>(ctx: &mut Ctx, rng: &mut Rng, dg: &Dg, fil: &F) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let f = CF::fld();
    let es = dg.edge_set();
    let cob = GrPPHCoboundary::<CF, _>::build(fil, &es, dg.n);
    ctx.sig(&format!("{}{dg:?}", CF::NAME));
    ctx.describe(|| format!("{} {dg:?}", CF::NAME));
    ctx.max("most_vertices", dg.n as u64);
    let val = |x: NotNan<f64>| x.into_inner();

    // ---- basis: every vertex and every edge with a value, in (value, cell) order per dimension
    let nodes: Vec<PathHomCell> = (0..dg.n).map(Node).collect();
    let mut keys: BTreeSet<Edge> = dg.time.keys().copied().collect();
    keys.extend(dg.ground.iter().copied());
    let mut edges: Vec<(NotNan<f64>, PathHomCell)> =
        keys.iter().map(|e| (nn(dg.edge_value(e).unwrap()), E1(e.0, e.1))).collect();
    edges.sort();
    let edges: Vec<PathHomCell> = edges.into_iter().map(|x| x.1).collect();
    ensure_eq!(read_basis(cob.basis().in_dimension(0)), nodes, "basis in dimension 0");
    ensure_eq!(read_basis(cob.basis().in_dimension(1)), edges, "basis in dimension 1");
    let all: Vec<PathHomCell> = nodes.iter().chain(edges.iter()).copied().collect();
    let whole = cob.basis();
    ensure_eq!(ColBasis::size(whole), all.len(), "size of the whole basis");
    ensure_eq!((0..all.len()).map(|i| whole.element(i)).collect::<Vec<_>>(), all, "whole basis");
    ctx.add("basis_cells", all.len() as u64);

    // ---- coboundary columns and the two-cells they produce
    let node_cob: BTreeMap<PathHomCell, SVec<PathHomCell>> = nodes.iter().map(|c| (*c, dec_keys(cob.column(*c)))).collect();
    let mut cells: BTreeSet<PathHomCell> = BTreeSet::new();
    let mut edge_cob: BTreeMap<PathHomCell, SVec<PathHomCell>> = BTreeMap::new();
    for e in &edges {
        let col: Vec<(CF, PathHomCell)> = cob.column(*e).collect();
        for (_, c) in &col {
            let two = cell_of(c);
            for x in edges_of(&two) {
                ensure!(dg.time.contains_key(&x), "{c:?} in the coboundary of {e:?} runs through {x:?}, which never appears");
            }
            for (_, p) in two_paths(&two) {
                ensure!(p.0 != p.1 && p.1 != p.2, "{c:?} is degenerate");
            }
            cells.insert(*c);
        }
        edge_cob.insert(*e, dec_keys(col));
    }
    let cells: Vec<PathHomCell> = cells.into_iter().collect();

    // ---- boundary columns
    let mut basis: Vec<(NotNan<f64>, PathHomCell)> = all.iter().chain(cells.iter()).map(|c| (nn(0.0), *c)).collect();
    if rng.chance(1, 2) {
        rng.shuffle(&mut basis);
    }
    let given: Vec<PathHomCell> = basis.iter().map(|x| x.1).collect();
    let bd = GrPPHBoundary::<CF, _>::build(fil, &es, PathHomSingleBasis(basis));
    ensure_eq!(read_basis(bd.basis()), given, "basis of the boundary");
    let bcols: BTreeMap<PathHomCell, SVec<PathHomCell>> =
        all.iter().chain(cells.iter()).map(|c| (*c, dec_keys(bd.column(*c)))).collect();
    for n in &nodes {
        ensure!(bcols[n].is_empty(), "boundary of {n:?} is {:?}", bcols[n]);
    }
    for e in &edges {
        let E1(s, t) = *e else { unreachable!() };
        let want: SVec<PathHomCell> = [(Node(t), f.int(1)), (Node(s), f.int(-1))].into_iter().collect();
        ensure!(bcols[e] == want || bcols[e] == neg(&want, f), "boundary of {e:?} is {:?}", bcols[e]);
    }
    for c in &cells {
        let want: SVec<PathHomCell> = d2(&two_paths(&cell_of(c)), f).into_iter().map(|(e, x)| (E1(e.0, e.1), x)).collect();
        ensure!(bcols[c] == want || bcols[c] == neg(&want, f), "boundary of {c:?} is {:?}, expected plus or minus {want:?}", bcols[c]);
    }

    // ---- transposes
    let mut cob_t: BTreeMap<PathHomCell, SVec<PathHomCell>> = edges.iter().chain(cells.iter()).map(|c| (*c, SVec::new())).collect();
    for (c, col) in node_cob.iter().chain(edge_cob.iter()) {
        for (r, x) in col {
            match cob_t.get_mut(r) {
                Some(v) => v.insert(*c, *x),
                None => vcore::viol(format!("the coboundary of {c:?} contains {r:?}, which is no cell of the complex")),
            };
        }
    }
    for (c, want) in &cob_t {
        ensure_eq!(bcols[c], *want, "boundary of {c:?} against the transposed coboundary");
        ctx.add("transposed_entries", want.len() as u64);
    }

    // ---- squares
    for c in &cells {
        let twice = dec_keys(product(&bd, &bd).column(*c));
        ensure!(twice.is_empty(), "boundary of the boundary of {c:?} is {twice:?}");
    }
    for c in &nodes {
        let twice = dec_keys(product(&cob, &cob).column(*c));
        ensure!(twice.is_empty(), "coboundary of the coboundary of {c:?} is {twice:?}");
    }

    // ---- filtration values
    for c in all.iter().chain(cells.iter()) {
        let want = match c {
            Node(_) => 0.0,
            E1(a, b) => dg.edge_value(&(*a, *b)).unwrap(),
            TwoCell(t) => edges_of(t).iter().map(|e| dg.time[e]).fold(0.0, f64::max),
        };
        let (x, y) = (val(cob.filtration_value(*c)), val(bd.filtration_value(*c)));
        ensure!(x == want, "coboundary: value of {c:?} is {x}, expected {want}");
        ensure!(y == want, "boundary: value of {c:?} is {y}, expected {want}");
        for face in bcols[c].keys() {
            ensure!(val(bd.filtration_value(*face)) <= y, "{face:?} enters after {c:?}");
        }
        let bare: Vec<_> = bd.matrix.column_with_filtration(*c).collect();
        ensure_eq!(dec_keys(bare.iter().map(|e| (e.coeff, e.row_index))), bcols[c], "annotated boundary of {c:?}");
        for e in bd.column_with_filtration(*c).chain(bare) {
            ensure!(val(e.filtration_value) == val(bd.filtration_value(e.row_index)), "boundary of {c:?} carries {} for {:?}", e.filtration_value, e.row_index);
        }
        if !matches!(c, TwoCell(_)) {
            let bare: Vec<_> = cob.matrix.column_with_filtration(*c).collect();
            let plain = node_cob.get(c).or(edge_cob.get(c)).cloned().unwrap_or_default();
            ensure_eq!(dec_keys(bare.iter().map(|e| (e.coeff, e.row_index))), plain, "annotated coboundary of {c:?}");
            for e in cob.column_with_filtration(*c).chain(bare) {
                ensure!(val(e.filtration_value) == val(cob.filtration_value(e.row_index)), "coboundary of {c:?} carries {} for {:?}", e.filtration_value, e.row_index);
            }
        }
        ctx.add("filtration_values_compared", 2);
    }
    for c in &cells {
        ctx.add(
            match cell_of(c) {
                phlite_grpph::coboundary::PathHom2Cell::DoubleEdge(..) => "double_edges",
                phlite_grpph::coboundary::PathHom2Cell::DirectedTriangle(..) => "directed_triangles",
                _ => "long_squares",
            },
            1,
        );
    }
    ctx.add("grounded_edges", dg.ground.len() as u64);
    ctx.nontrivial = !cells.is_empty();
}

/// A filtration of the user's own, neither a table nor a map.
struct Rule(Dg);
impl DigraphFiltration for Rule {
    fn edge_time(&self, s: &u16, t: &u16) -> Option<NotNan<f64>> {
        self.0.time.get(&(*s, *t)).map(|x| nn(*x))
    }
}

fn draw<CF: TField>(ctx: &mut Ctx, rng: &mut Rng) {
    let hi = if rng.chance(1, 40) { 20 } else { 8 };
    let mut dg = random(rng, hi);
    match rng.below(5) {
        0 | 1 => case::<CF, _>(ctx, rng, &dg, &dg.table()),
        2 | 3 => case::<CF, _>(ctx, rng, &dg, &dg.map()),
        _ => case::<CF, _>(ctx, rng, &dg, &Rule(dg.clone())),
    }
    if rng.chance(1, 3) && dg.n <= 20 {
        match rng.below(3) {
            0 => later::<CF, _>(ctx, rng, &mut dg, |d| d.table()),
            1 => later::<CF, _>(ctx, rng, &mut dg, |d| d.map()),
            _ => later::<CF, _>(ctx, rng, &mut dg, |d| Rule(d.clone())),
        }
    }
}

/// Further filtrations of the same digraph, one after the other (the memory of one is free for
/// the next), each asked first for the cell the one before was asked for last.
fn later<CF: TField, F: DigraphFiltration>(ctx: &mut Ctx, rng: &mut Rng, dg: &mut Dg, make: impl Fn(&Dg) -> F) {
    let keys: Vec<Edge> = dg.time.keys().copied().collect();
    let pairs: Vec<TwoPath> = keys
        .iter()
        .flat_map(|(a, b)| keys.iter().filter(move |e| e.0 == *b).map(move |e| (*a, *b, e.1)))
        .collect();
    if pairs.is_empty() {
        return;
    }
    use phlite_grpph::coboundary::PathHom2Cell::*;
    let (a, b, c) = *rng.pick(&pairs);
    let other: Vec<u16> = pairs.iter().filter(|p| (p.0, p.2) == (a, c) && p.1 != b).map(|p| p.1).collect();
    let cell = if a == c {
        TwoCell(DoubleEdge(a, b))
    } else if dg.time.contains_key(&(a, c)) && rng.chance(1, 2) {
        TwoCell(DirectedTriangle(a, b, c))
    } else if !other.is_empty() && rng.chance(1, 2) {
        TwoCell(LongSquare(a, *rng.pick(&other), b, c))
    } else {
        E1(a, b)
    };
    let coboundaries = rng.chance(1, 2);
    for _ in 0..rng.range(3, 6) {
        for x in dg.time.values_mut() {
            *x = rng.range(0, 6) as f64 / 2.0;
        }
        let want = match &cell {
            Node(_) => 0.0,
            E1(a, b) => dg.edge_value(&(*a, *b)).unwrap(),
            TwoCell(t) => edges_of(t).iter().map(|e| dg.time[e]).fold(0.0, f64::max),
        };
        let (es, fil) = (dg.edge_set(), make(dg));
        let got = if coboundaries {
            GrPPHCoboundary::<CF, _>::build(fil, &es, dg.n).filtration_value(cell)
        } else {
            GrPPHBoundary::<CF, _>::build(fil, &es, PathHomSingleBasis(vec![])).filtration_value(cell)
        };
        ensure!(got.into_inner() == want, "in a later filtration {dg:?} the value of {cell:?} is {got}, expected {want}");
        ctx.add("later_filtrations", 1);
    }
}

fn main() {
    vcore::driver::run("C21", || {}, |ctx, rng, idx| match idx % 4 {
        0 => draw::<Z2>(ctx, rng),
        1 => draw::<Z3>(ctx, rng),
        2 => draw::<Z7>(ctx, rng),
        _ => draw::<Q>(ctx, rng),
    });
}
