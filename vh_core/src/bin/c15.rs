//! C15: stored matrices and bases are faithful, column equality is exact.
use phlite::columns::ColumnEntry;
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::implementors::{MapVecMatrix, SimpleZ2Matrix, StandardBasis, VecVecMatrix};
use phlite::matrices::{ColBasis, HasColBasis, HasRowFiltration, MatrixOracle};
use rustc_hash::FxHashMap;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use vcore::algebra::{add_term, SVec};
use vcore::field::TField;
use vcore::labels::{TFil, TLabel};
use vcore::mon::{dec_keys, present_col, Style};
use vcore::{dispatch_few, ensure, ensure_eq, Ctx, Rng};

fn list<CF: TField, R: TLabel>(v: &[(CF, R)]) -> Vec<(vcore::field::Sc, R)> {
    v.iter().map(|(x, r)| (x.dec(), *r)).collect()
}

fn same<CF: TField, M: MatrixOracle<CoefficientField = CF, RowT = R>, R: TLabel>(
    ctx: &mut Ctx,
    m: &M,
    c: M::ColT,
    want: &[(CF, R)],
    what: &str,
) where
    M::ColT: std::fmt::Debug,
{
    let got: Vec<(CF, R)> = m.column(c.clone()).collect();
    ensure_eq!(list(&got), list(want), "{what}: entries of column {c:?}");
    // a second, partial read gives the same prefix
    let k = want.len() / 2;
    let got: Vec<(CF, R)> = m.column(c.clone()).take(k).collect();
    ensure_eq!(list(&got), list(&want[..k]), "{what}: first entries of column {c:?}");
    ctx.add("stored_columns_compared", 1);
    ctx.max("longest_stored_column", want.len() as u64);
}

fn case<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let f = CF::fld();
    let big = rng.chance(1, 1500);
    let (nc, nr) = match rng.below(50) {
        _ if big => (rng.range(65_536, 70_000), 3),
        0 => (rng.range(60, 700), rng.range(1, 40)),
        1 => (rng.range(1, 4), rng.range(200, 2000)),
        2..=20 => (rng.below(4), rng.range(1, 4)),
        _ => (rng.range(1, 14), rng.range(1, 12)),
    };
    let rl = L::table(nr, rng);
    // raw stored lists: any order, repeated rows, cancelling terms
    let raw: Vec<Vec<(CF, L)>> = (0..nc)
        .map(|_| {
            let k = if rng.chance(1, 6) { 0 } else if nr > 100 { nr } else { rng.below(9) };
            (0..k).map(|_| (CF::enc(f.unit(rng)), *rng.pick(&rl))).collect()
        })
        .collect();
    ctx.sig(&format!("{raw:?}").replace(' ', ""));
    ctx.describe(|| format!("{} {} {}: stored columns {raw:?}", CF::NAME, L::NAME, F::NAME));
    ctx.nontrivial = nc > 0;

    // ---- stored matrices
    let std_basis = |ctx: &mut Ctx, b: &StandardBasis, what: &str| {
        ensure_eq!(ColBasis::size(b), nc, "{what}: basis size");
        for i in 0..nc {
            ensure_eq!(ColBasis::element(b, i), i, "{what}: basis position {i}");
        }
        let want: HashMap<usize, usize> = (0..nc).map(|i| (i, i)).collect();
        ensure_eq!(ColBasis::construct_reverse_lookup(b), want, "{what}: reverse lookup");
        ctx.add("bases_compared", 1);
    };
    macro_rules! stored {
        ($m:expr, $what:expr) => {{
            let m = $m;
            for (j, c) in raw.iter().enumerate() {
                same(ctx, &m, j, c, $what);
            }
            std_basis(ctx, &*m.basis(), $what);
            std_basis(ctx, &*(&m).basis(), $what);
            let g = m.columns.as_ref();
            ensure_eq!(g.len(), nc, "{}: number of columns", $what);
        }};
    }
    stored!(VecVecMatrix::new(raw.clone()), "VecVecMatrix::new(vec)");
    stored!(VecVecMatrix::new(raw.iter().map(|c| c.iter().copied())), "VecVecMatrix::new(iter)");
    stored!(VecVecMatrix::from(raw.clone()), "VecVecMatrix::from(owned)");
    stored!(VecVecMatrix::from(&raw), "VecVecMatrix::from(&)");
    stored!(VecVecMatrix::from(Cow::Borrowed(&raw)), "VecVecMatrix::from(Cow::Borrowed)");
    stored!(VecVecMatrix::from(Cow::<Vec<Vec<(CF, L)>>>::Owned(raw.clone())), "VecVecMatrix::from(Cow::Owned)");
    let ones: Vec<Vec<(CF, L)>> = raw.iter().map(|c| c.iter().map(|(_, l)| (CF::one(), *l)).collect()).collect();
    let m: VecVecMatrix<CF, L> = VecVecMatrix::new_all_one(ones.iter().map(|c| c.iter().map(|(_, l)| *l)));
    for (j, c) in ones.iter().enumerate() {
        same(ctx, &m, j, c, "VecVecMatrix::new_all_one");
        ensure!(m.column(j).all(|(x, _)| x.dec() == f.int(1)), "new_all_one has another coefficient");
    }
    std_basis(ctx, &*m.basis(), "VecVecMatrix::new_all_one");
    std_basis(ctx, &StandardBasis::new(nc), "StandardBasis::new");

    // keyed by labels
    let keys = L::table(nc, rng);
    let map: FxHashMap<L, Vec<(CF, L)>> = keys.iter().copied().zip(raw.iter().cloned()).collect();
    {
        let m = MapVecMatrix::from(&map);
        let n = MapVecMatrix::from(map.clone());
        for (k, c) in keys.iter().zip(&raw) {
            same(ctx, &m, *k, c, "MapVecMatrix::from(&)");
            same(ctx, &n, *k, c, "MapVecMatrix::from(owned)");
            same(ctx, &Rc::new(&n), *k, c, "Rc(MapVecMatrix)");
        }
        ensure_eq!(n.columns.len(), nc, "MapVecMatrix columns");
    }

    // ---- bases from vectors, in any order
    let mut b = keys.clone();
    rng.shuffle(&mut b);
    ensure_eq!(ColBasis::size(&b), nc, "Vec basis size");
    for (i, k) in b.iter().enumerate() {
        ensure_eq!(ColBasis::element(&b, i), *k, "Vec basis position {i}");
        ensure_eq!(ColBasis::element(&&b, i), *k, "&Vec basis position {i}");
    }
    let want: HashMap<L, usize> = b.iter().enumerate().map(|(i, k)| (*k, i)).collect();
    ensure_eq!(b.construct_reverse_lookup(), want, "reverse lookup of a Vec basis");
    ensure_eq!((&b).construct_reverse_lookup(), want, "reverse lookup of a &Vec basis");
    ctx.add("reverse_lookups", 3);
    ctx.max("longest_basis", nc as u64);

    // ---- column equality
    let m = VecVecMatrix::from(&raw);
    for (j, c) in raw.iter().enumerate() {
        if nc > 30 && !rng.chance(1, if big { 5000 } else { 10 }) {
            continue;
        }
        let v: SVec<L> = dec_keys(c.iter().copied());
        for _ in 0..3 {
            // an equal or nearly equal vector, written another way
            let mut w = v.clone();
            let how = rng.below(7);
            let x = f.unit(rng);
            let some = |w: &SVec<L>, rng: &mut Rng| -> Option<L> {
                (!w.is_empty()).then(|| *w.keys().nth(rng.below(w.len())).unwrap())
            };
            match how {
                0..=2 => {}
                3 => add_term(&mut w, *rng.pick(&rl), x, f),
                4 => {
                    // drop one term: the first, the last or any
                    let k = match rng.below(3) {
                        0 => w.keys().next().copied(),
                        1 => w.keys().next_back().copied(),
                        _ => some(&w, rng),
                    };
                    if let Some(k) = k {
                        w.remove(&k);
                    }
                }
                5 => {
                    // same support, one coefficient changed
                    if let Some(k) = some(&w, rng) {
                        w.insert(k, x);
                    }
                }
                _ => {
                    // same coefficients, one row moved
                    if let Some(k) = some(&w, rng) {
                        let y = w.remove(&k).unwrap();
                        let k2 = *rng.pick(&rl);
                        w.entry(k2).or_insert(y);
                    }
                }
            }
            let style = Style::draw(rng);
            let mut other = raw.clone();
            other[j] = present_col::<CF, L>(&w, style, nr, rng, |r| *r.pick(&rl));
            let o = VecVecMatrix::from(&other);
            let want = v == w;
            let say = |got: bool, what: &str| {
                ensure!(got == want, "{what} says {got} for {v:?} and {w:?} (as {:?} and {:?})", list(&raw[j]), list(&other[j]));
            };
            say(m.eq_on_col(&o, j), "eq_on_col");
            say(o.eq_on_col(&m, j), "eq_on_col (swapped)");
            say((&m).eq_on_col(&&o, j), "eq_on_col (borrowed)");
            say(m.eq_on_col(&(&o).consolidate(), j), "eq_on_col (consolidated)");
            say((&m).cache_cols().eq_on_col(&o, j), "eq_on_col (cached)");
            ctx.add(if want { "equal_columns_compared" } else { "unequal_columns_compared" }, 5);
            if rng.chance(1, 4) {
                // filtrations must not matter
                let t = F::table(if F::TRIVIAL { 1 } else { 3 }, rng);
                let pick = |l: &L| t[rl.binary_search(l).unwrap() % t.len()];
                let last = |l: &L| t[t.len() - 1 - rl.binary_search(l).unwrap() % t.len()];
                let fm = (&m).with_filtration(|l: L| pick(&l));
                let fo = (&o).with_filtration(|l: L| last(&l));
                say(fm.eq_on_col(&fo, j), "eq_on_col (with different filtrations)");
                say(m.eq_on_col(&fo, j), "eq_on_col (one filtered)");
                // against derived matrices
                let id: FxHashMap<L, Vec<(CF, L)>> = rl.iter().map(|l| (*l, vec![(CF::one(), *l)])).collect();
                let id = MapVecMatrix::from(&id);
                say(m.eq_on_col(&product(&id, &o), j), "eq_on_col (product with the identity)");
                let empty: Vec<Vec<(CF, L)>> = vec![vec![]; nc];
                say(sum(&m, VecVecMatrix::from(&empty)).eq_on_col(&o, j), "eq_on_col (sum with zero)");
                say((&m).reverse().eq_on_col(&(&o).reverse(), std::cmp::Reverse(j)), "eq_on_col (reversed)");
                // annotated read-out of the stored column
                let es: Vec<ColumnEntry<F, L, CF>> = fm.column_with_filtration(j).collect();
                ensure!(es.len() == raw[j].len() && es.iter().zip(&raw[j]).all(|(e, (x, l))| e.row_index == *l && e.coeff.dec() == x.dec() && e.filtration_value == pick(l)),
                    "annotated stored column {j} differs");
            }
        }
    }
}

/// Matrices over Z2 given by positions only.
fn z2(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.below(20);
    let raw: Vec<Vec<usize>> = (0..n).map(|_| (0..rng.below(6)).map(|_| rng.below(30)).collect()).collect();
    let m = SimpleZ2Matrix::new_all_one(raw.clone());
    ctx.sig(&format!("{raw:?}"));
    ctx.nontrivial = n > 0;
    let mut seen: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for i in 0..ColBasis::size(&m.basis()) {
        let c = ColBasis::element(&m.basis(), i);
        seen.insert(c, m.column(c).map(|(_, r)| r).collect());
    }
    ensure_eq!(seen.into_values().collect::<Vec<_>>(), raw, "columns of a SimpleZ2Matrix");
    ctx.add("stored_columns_compared", n as u64);
}

fn main() {
    vcore::driver::run("C15", vcore::gen::self_check, |ctx, rng, idx| {
        if idx % 20 == 19 {
            z2(ctx, rng)
        } else {
            dispatch_few!(idx as usize, case(ctx, rng))
        }
    });
}
