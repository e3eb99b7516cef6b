//! C27: only the columns an answer needs are ever evaluated.
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::{ColBasis, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use std::collections::BTreeMap;
use std::cmp::Reverse;
use std::rc::Rc;
use std::sync::Arc;
use vcore::field::TField;
use vcore::gen::{self, Size};
use vcore::labels::{TFil, TLabel};
use vcore::mon::{Case, Mat, Style};
use vcore::{dispatch_few, ensure, Ctx, Rng};

type Req = BTreeMap<usize, u64>;

fn taken<CF: TField, L: TLabel, F: TFil>(m: &Mat<CF, L, F>) -> Req {
    let r = m
        .log
        .col_calls
        .borrow()
        .iter()
        .enumerate()
        .filter(|(_, k)| **k > 0)
        .map(|(i, k)| (i, *k))
        .collect();
    m.reset_log();
    r
}

/// Every column was requested at most as often as the answer needs it.
fn within(got: &Req, want: &Req, what: &str) {
    for (j, k) in got {
        let w = want.get(j).copied().unwrap_or(0);
        ensure!(*k <= w, "{what}: column {j} was evaluated {k} times, needed {w} times");
    }
}

fn case<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let size = Size::draw_no_large(rng);
    let cx = gen::complex(rng, CF::P, size, F::TRIVIAL);
    let n = cx.n();
    if n == 0 {
        return;
    }
    let case = Case::<L, F>::new(cx, rng);
    let basis = case.basis(true);
    let f = CF::fld();
    let other: Vec<_> = (0..n)
        .map(|_| (0..rng.below(5)).map(|_| (rng.below(n), f.unit(rng))).collect())
        .collect();
    let (s1, s2) = (Style::draw(rng), Style::draw(rng));
    let a = case.oracle::<CF>(&case.cx.cols, basis.clone(), s1, rng);
    let b = case.oracle::<CF>(&other, basis.clone(), s2, rng);
    ctx.describe(|| format!("{} {} {} {} {s1:?} {s2:?}", CF::NAME, L::NAME, F::NAME, case.cx.brief()));
    ctx.sig(&case.cx.fingerprint());
    let fil = |l: L| case.fval(case.id(l));
    let md = case.cx.max_dim();
    let dim = rng.below(md + 1);

    // request multisets: column j; the terms of column j of b, as columns of a
    let one = |j: usize| Req::from([(j, 1)]);
    let terms = |m: &Mat<CF, L, F>, j: usize| {
        let mut r = Req::new();
        for (_, l) in &m.cols[j] {
            *r.entry(case.id(*l)).or_insert(0) += 1;
        }
        r
    };
    let plus = |mut x: Req, y: Req| {
        for (k, v) in y {
            *x.entry(k).or_insert(0) += v;
        }
        x
    };
    let mut reads = 0u64;
    let mut terms_seen = 0u64;
    // build `$e`; read some columns plainly and annotated; `$wa`, `$wb`: expected requests of a, b
    macro_rules! lazy {
        ($name:expr, $e:expr, $key:expr, $wa:expr, $wb:expr, $annot:tt) => {{
            let e = $e;
            let (ra, rb) = (taken(&a), taken(&b));
            ensure!(ra.is_empty() && rb.is_empty(), "building {} evaluated columns {ra:?} {rb:?}", $name);
            for _ in 0..2 {
                let j = rng.below(n);
                for k in 0..2 {
                    let cnt = if k == 0 {
                        e.column($key(j)).count()
                    } else {
                        lazy!(@annot $annot, e, $key(j))
                    };
                    let (ra, rb) = (taken(&a), taken(&b));
                    let (wa, wb): (Req, Req) = ($wa(j), $wb(j));
                    within(&ra, &wa, &format!("reading column {j} of {}: requests made of the first matrix", $name));
                    within(&rb, &wb, &format!("reading column {j} of {}: requests made of the second matrix", $name));
                    reads += 1;
                    terms_seen += cnt as u64;
                }
            }
        }};
        (@annot yes, $e:ident, $k:expr) => { $e.column_with_filtration($k).count() };
        (@annot no, $e:ident, $k:expr) => { $e.column($k).count() };
    }
    let none = |_: usize| Req::new();
    let lab = |j: usize| case.labels[j];
    let rlab = |j: usize| Reverse(case.labels[j]);
    for _ in 0..3 {
        match rng.below(18) {
            0 => lazy!("with_trivial_filtration", (&a).with_trivial_filtration(), lab, one, none, yes),
            1 => lazy!("with_filtration", (&a).with_filtration(fil), lab, one, none, yes),
            2 => lazy!("consolidate", (&a).consolidate(), lab, one, none, yes),
            3 => lazy!("with_basis", (&a).with_basis(basis.clone()), lab, one, none, yes),
            4 => {
                let pos = |j: usize| basis.flat.iter().position(|l| *l == case.labels[j]).unwrap();
                lazy!("using_col_basis_index", (&a).using_col_basis_index(), pos, one, none, yes)
            }
            5 => lazy!("reverse", (&a).reverse(), rlab, one, none, yes),
            6 => lazy!("reverse().unreverse()", MatrixOracle::unreverse((&a).reverse()), lab, one, none, yes),
            7 => lazy!("sub_matrix_in_dimension", (&a).sub_matrix_in_dimension(dim), lab, one, none, yes),
            8 => lazy!("Box", Box::new(&a), lab, one, none, no),
            9 => lazy!("Rc and Arc", Rc::new(Arc::new(&a)), lab, one, none, no),
            10 => {
                // the first read of a cached column evaluates it, later ones nothing
                let c = (&a).cache_cols();
                ensure!(taken(&a).is_empty(), "building cache_cols evaluated a column");
                let j = rng.below(n);
                let k = c.column(lab(j)).count();
                within(&taken(&a), &one(j), &format!("first read of cached column {j}"));
                let k2 = c.column_with_filtration(lab(j)).count();
                within(&taken(&a), &Req::new(), &format!("second read of cached column {j}"));
                ensure!(k == k2, "cached column changes length");
                reads += 2;
            }
            11 => lazy!("product", product(&a, &b), lab, |j| terms(&b, j), one, yes),
            12 => lazy!("sum", sum(&a, &b), lab, one, one, no),
            13 => lazy!("product with itself", product(&a, &a), lab, |j| plus(one(j), terms(&a, j)), none, yes),
            14 => lazy!("sum of product and factor", sum(product(&a, &b), &b), lab, |j| terms(&b, j), |j| Req::from([(j, 2)]), no),
            15 => lazy!(
                "reversed product",
                product(&a, &b).reverse(),
                rlab,
                |j| terms(&b, j),
                one,
                yes
            ),
            16 => lazy!(
                "product of wrapped factors",
                product((&a).with_filtration(fil), (&b).with_basis(basis.clone()).with_trivial_filtration()).with_basis(basis.clone()),
                lab,
                |j| terms(&b, j),
                one,
                yes
            ),
            _ => lazy!("consolidated product", product(&a, &b).consolidate(), lab, |j| terms(&b, j), one, yes),
        }
    }
    // basis and filtration queries evaluate no column
    {
        let r = (&a).reverse();
        let u = MatrixOracle::unreverse(&r);
        let p = product(&b, &u).with_filtration(fil);
        let s = (&p).sub_matrix_in_dimension(dim);
        let mut seen = 0;
        for i in 0..p.basis().size().min(20) {
            let l = p.basis().element(i);
            let _ = p.filtration_value(l);
            let _ = r.filtration_value(Reverse(l));
            let _ = r.basis().element(i);
            let _ = u.basis().element(i);
            seen += 1;
        }
        for i in 0..s.basis().size().min(20) {
            let _ = s.basis().element(i);
            let _ = r.basis().in_dimension(dim).element(i);
            let _ = u.basis().in_dimension(dim).element(i);
            seen += 1;
        }
        let _ = p.basis().construct_reverse_lookup();
        let (ra, rb) = (taken(&a), taken(&b));
        ensure!(ra.is_empty() && rb.is_empty(), "basis or filtration queries evaluated columns {ra:?} {rb:?}");
        ctx.add("basis_queries", seen);
    }
    // equality on a column reads just that column of both
    let j = rng.below(n);
    let _ = a.eq_on_col(&b, lab(j));
    within(&taken(&a), &one(j), &format!("eq_on_col: requests of the first matrix"));
    within(&taken(&b), &one(j), &format!("eq_on_col: requests of the second matrix"));
    // a working column reads just that column
    let j = rng.below(n);
    let _ = a.build_bhcol(lab(j));
    within(&taken(&a), &one(j), &format!("build_bhcol: requests"));
    ctx.add("columns_read_through_views", reads);
    ctx.add("terms_read", terms_seen);
    ctx.nontrivial = terms_seen > 0;
}

fn main() {
    vcore::driver::run("C27", gen::self_check, |ctx, rng, idx| {
        dispatch_few!(idx as usize, case(ctx, rng))
    })
}
