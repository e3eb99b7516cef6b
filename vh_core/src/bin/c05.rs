//! C05: lazy products and sums are exact linear algebra.
use ordered_float::NotNan;
use phlite::fields::*;
use phlite::matrix_col_product;
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::{HasColBasis, HasRowFiltration, MatrixOracle};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;
use vcore::algebra::{axpy, SVec};
use vcore::field::TField;
use vcore::labels::{Lab, TFil, TLabel};
use vcore::mon::{dec_keys, Style};
use vcore::spec::*;
use vcore::{ensure, Ctx, Rng};

type Cols<C, R> = BTreeMap<C, SVec<R>>;

fn mul<CF: TField, C: El, M: El, R: El>(a: &Cols<M, R>, b: &Cols<C, M>) -> Cols<C, R> {
    let f = CF::fld();
    b.iter()
        .map(|(c, v)| {
            let mut out = SVec::new();
            for (k, x) in v {
                axpy(&mut out, *x, &a[k], f);
            }
            (*c, out)
        })
        .collect()
}
fn add<CF: TField, C: El, R: El>(a: &Cols<C, R>, b: &Cols<C, R>) -> Cols<C, R> {
    let f = CF::fld();
    a.iter()
        .map(|(c, v)| {
            let mut out = v.clone();
            axpy(&mut out, f.int(1), &b[c], f);
            (*c, out)
        })
        .collect()
}

/// Rectangular chains A: R<-M, B: M<-C, C: C<-D with different index types.
fn chain<CF: TField, L: TLabel, M: TLabel, C: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let hi = if rng.chance(1, 40) { 40 } else { 9 };
    let rl = L::table(rng.range(1, hi), rng);
    let ml = M::table(rng.range(1, hi), rng);
    let cl = C::table(rng.range(1, hi), rng);
    let dl: Vec<usize> = <usize as TLabel>::table(rng.range(1, hi), rng);
    let sa = random_spec_on::<CF, M, L, F>(rng, &ml, &rl);
    let sa2 = random_spec_on::<CF, M, L, F>(rng, &ml, &rl);
    let sb = random_spec_on::<CF, C, M, usize>(rng, &cl, &ml);
    let sb2 = random_spec_on::<CF, C, M, usize>(rng, &cl, &ml);
    let sc = random_spec_on::<CF, usize, C, ()>(rng, &dl, &cl);
    let mut st = || (Style::draw(rng), Style::draw(rng));
    let (x, y, z, w, v) = (st(), st(), st(), st(), st());
    let a = Dyn::<CF, M, L, F>::from_spec(&sa, x.0, x.1, rng);
    let a2 = Dyn::<CF, M, L, F>::from_spec(&sa2, y.0, y.1, rng);
    let b = Dyn::<CF, C, M, usize>::from_spec(&sb, z.0, z.1, rng);
    let b2 = Dyn::<CF, C, M, usize>::from_spec(&sb2, w.0, w.1, rng);
    let c = Dyn::<CF, usize, C, ()>::from_spec(&sc, v.0, v.1, rng);
    ctx.sig(&format!("{sa:?}{sb:?}{sc:?}{x:?}{z:?}"));
    ctx.describe(|| format!("{} A {} B {} C {}", CF::NAME, sa.brief(), sb.brief(), sc.brief()));
    ctx.nontrivial = true;

    let ab = mul::<CF, _, _, _>(&sa.cols, &sb.cols);
    let bc = mul::<CF, _, _, _>(&sb.cols, &sc.cols);
    let abc = mul::<CF, _, _, _>(&ab, &sc.cols);
    let aa = add::<CF, _, _>(&sa.cols, &sa2.cols);
    let bb = add::<CF, _, _>(&sb.cols, &sb2.cols);
    let ab2 = mul::<CF, _, _, _>(&sa.cols, &sb2.cols);
    let a2b = mul::<CF, _, _, _>(&sa2.cols, &sb.cols);
    let s_ab = Spec { cols: ab.clone(), fil: sa.fil.clone(), flat: sb.flat.clone(), subs: sb.subs.clone() };
    let s_abc = Spec { cols: abc.clone(), fil: sa.fil.clone(), flat: sc.flat.clone(), subs: sc.subs.clone() };
    let f_a = &sa.fil;
    let mut obs = Obs { ctx, agreement_only: false };
    let o = &mut obs;
    match rng.below(5) {
        0 => {
            o.all(&product(&a, &b), &s_ab, "AB");
            o.all(&product(a.clone(), b.clone()), &s_ab, "AB (owned)");
            o.all(&product(product(&a, &b), &c), &s_abc, "(AB)C");
            o.all(&product(&a, product(&b, &c)), &s_abc, "A(BC)");
            o.matrix(&product(&b, &c), &bc, "BC");
            let ab_m = product(&a, &b);
            o.all(&product(&ab_m, &c), &s_abc, "(&AB)C");
            o.all(&&ab_m, &s_ab, "&AB");
            let l = product(product(&a, &b), &c);
            let r = product(&a, product(&b, &c));
            for d in &dl {
                ensure!(l.eq_on_col(&r, *d), "(AB)C and A(BC) differ on column {d:?}");
            }
        }
        1 => {
            o.matrix(&sum(&a, &a2), &aa, "A+A'");
            o.matrix(&sum(&a2, &a), &aa, "A'+A");
            o.matrix(&sum(sum(&a, &a2), &a), &add::<CF, _, _>(&aa, &sa.cols), "(A+A')+A");
            o.matrix(&sum(&a, sum(&a2, &a)), &add::<CF, _, _>(&aa, &sa.cols), "A+(A'+A)");
            o.matrix(&sum(a.clone(), &a2), &aa, "A+A' (owned)");
            o.filtered(&sum(&a, &a2).with_filtration(|r: L| f_a[&r]), &aa, f_a, "(A+A').with_filtration");
            // distributivity
            let want = add::<CF, _, _>(&ab, &ab2);
            o.matrix(&product(&a, sum(&b, &b2)), &want, "A(B+B')");
            o.matrix(&sum(product(&a, &b), product(&a, &b2)), &want, "AB+AB'");
            o.filtered(&product(&a, sum(&b, &b2)), &want, f_a, "A(B+B')");
            let want = add::<CF, _, _>(&ab, &a2b);
            o.matrix(&product(sum(&a, &a2), &b), &want, "(A+A')B");
            o.flat(&*product(sum(&a, &a2), &b).basis(), &sb.flat, "((A+A')B).basis()");
            o.matrix(&sum(product(&a, &b), product(&a2, &b)), &want, "AB+A'B");
            let full = mul::<CF, _, _, _>(&aa, &bb);
            o.matrix(&product(sum(&a, &a2), sum(&b, &b2)), &full, "(A+A')(B+B')");
            // minus itself
            let zero: Cols<C, L> = ab.keys().map(|k| (*k, SVec::new())).collect();
            let neg = minus::<CF, _, _, _>(&b);
            o.matrix(&sum(product(&a, &b), product(&a, &neg)), &zero, "AB+A(-B)");
            o.merged(&sum(product(&a, &b), product(&a, &neg)).consolidate(), &zero, "AB+A(-B) consolidated");
        }
        2 => {
            // wrappers inside and outside
            o.all(&product((&a).cache_cols(), (&b).cache_cols()), &s_ab, "cache(A)cache(B)");
            o.all(&product((&a).cache_cols(), (&b).consolidate()).cache_cols(), &s_ab, "cache(cache(A)cons(B))");
            o.all(&product((&a).consolidate(), &b).consolidate(), &s_ab, "cons(cons(A)B)");
            o.merged_annotated(&product(&a, &b).consolidate(), &ab, "cons(AB)");
            o.all(&product(product(&a, &b).consolidate(), &c).cache_cols(), &s_abc, "cache(cons(AB)C)");
            o.all(&product(&a, product(&b, &c).consolidate()), &s_abc, "A cons(BC)");
            let f = |r: L| f_a[&r];
            o.all(&product((&a).with_trivial_filtration().with_filtration(f), &b), &s_ab, "filtered(A)B");
            o.all(&product(&a, (&b).with_trivial_filtration()), &s_ab, "A trivially filtered B");
            let nb = sb2.dim_basis();
            o.all(&product(&a, (&b).with_basis(&nb)), &s_ab.with_bases(sb2.flat.clone(), sb2.subs.clone()), "A with_basis(B)");
            o.all(&product(&a, &b).with_basis(&nb), &s_ab.with_bases(sb2.flat.clone(), sb2.subs.clone()), "with_basis(AB)");
            let other = random_basis(rng, &ml, 0).0;
            o.all(&product((&a).with_basis(other), &b), &s_ab, "with_basis(A)B");
            let k = rng.below(sb.subs.len());
            o.based(&product(&a, (&b).sub_matrix_in_dimension(k)), &s_ab.with_bases(sb.subs[k].clone(), vec![]), "A sub(B)");
            o.based(&product(&a, &b).sub_matrix_in_dimension(k), &s_ab.with_bases(sb.subs[k].clone(), vec![]), "sub(AB)");
            let ix: BTreeMap<usize, SVec<L>> = sb.flat.iter().enumerate().map(|(i, x)| (i, ab[x].clone())).collect();
            o.filtered(&product(&a, (&b).using_col_basis_index()), &ix, f_a, "A index(B)");
            o.filtered(&product(&a, &b).using_col_basis_index(), &ix, f_a, "index(AB)");
        }
        3 => {
            // pointers and reversal
            o.filtered(&product(&a, Rc::new(b.clone())), &ab, f_a, "A Rc(B)");
            o.filtered(&product(&a, Box::new(Arc::new(&b))), &ab, f_a, "A Box(Arc(B))");
            o.matrix(&product(Rc::new(&a), Box::new(&b)), &ab, "Rc(A)Box(B)");
            o.matrix(&Rc::new(product(Arc::new(&a), &b)), &ab, "Rc(Arc(A)B)");
            o.matrix(&sum(Rc::new(&a), Box::new(&a2)), &aa, "Rc(A)+Box(A')");
            let r = s_ab.rev();
            o.all(&product(&a, &b).reverse(), &r, "rev(AB)");
            o.all(&product((&a).reverse(), (&b).reverse()), &r, "rev(A)rev(B)");
            o.all(&product((&a).reverse(), (&b).reverse()).unreverse(), &s_ab, "unrev(rev(A)rev(B))");
            o.all(&product(&a, (&b).reverse().unreverse()), &s_ab, "A unrev(rev(B))");
            o.all(&product(&a, MatrixOracle::unreverse((&b).reverse())), &s_ab, "A unreverse(rev(B))");
            let rs: Cols<_, _> = Spec { cols: aa.clone(), fil: sa.fil.clone(), flat: vec![], subs: vec![] }.rev().cols;
            o.matrix(&sum((&a).reverse(), (&a2).reverse()), &rs, "rev(A)+rev(A')");
            o.matrix(&sum(&a, &a2).reverse(), &rs, "rev(A+A')");
        }
        _ => {
            // matrix times an arbitrary vector
            let f = CF::fld();
            for _ in 0..6 {
                let terms: Vec<(CF, M)> = (0..rng.below(7)).map(|_| (CF::enc(f.unit(rng)), *rng.pick(&ml))).collect();
                let mut want = SVec::new();
                for (x, k) in dec_keys(terms.iter().copied()).iter().map(|(k, x)| (*x, *k)) {
                    axpy(&mut want, x, &sa.cols[&k], f);
                }
                let got = dec_keys(matrix_col_product!(a, terms.iter().copied()));
                ensure!(got == want, "matrix_col_product of {terms:?} is {got:?}, expected {want:?}");
                let ar = (&a).reverse();
                let via = dec_keys(matrix_col_product!(ar, terms.iter().map(|(x, k)| (*x, std::cmp::Reverse(*k)))));
                let want: SVec<_> = want.into_iter().map(|(k, x)| (std::cmp::Reverse(k), x)).collect();
                ensure!(via == want, "matrix_col_product (reversed) of {terms:?} is {via:?}, expected {want:?}");
                o.ctx.add("vectors_multiplied", 2);
            }
            // partially read product columns, several at a time
            let p = product(&a, &b);
            let q = product(&a2, &b);
            for x in &cl {
                let mut it = p.column(*x);
                let mut jt = q.column(*x);
                let mut kt = p.column_with_filtration(*x);
                let (mut u, mut w, mut k) = (vec![], vec![], vec![]);
                loop {
                    let (m, n, l) = (it.next(), jt.next(), kt.next());
                    if m.is_none() && n.is_none() && l.is_none() {
                        break;
                    }
                    u.extend(m);
                    w.extend(n);
                    k.extend(l.map(|e| (e.coeff, e.row_index)));
                }
                ensure!(dec_keys(u) == ab[x], "interleaved AB column {x:?}");
                ensure!(dec_keys(w) == a2b[x], "interleaved A'B column {x:?}");
                ensure!(dec_keys(k) == ab[x], "interleaved annotated AB column {x:?}");
            }
            let fv = product(&a, &b);
            for (r, f) in f_a {
                ensure!(fv.filtration_value(*r) == *f, "filtration value of the product");
            }
        }
    }
}

fn minus<CF: TField, C: El, R: El, F: Fv>(d: &Dyn<CF, C, R, F>) -> Dyn<CF, C, R, F> {
    let inner = d.col.clone();
    let mut e = d.clone();
    e.col = Rc::new(move |c| inner(c).into_iter().map(|(x, r)| (x.additive_inverse(), r)).collect());
    e
}

/// Random expression trees over four square matrices.
fn tree<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let n = match rng.below(12) {
        0..=4 => rng.range(1, 4),
        5..=10 => rng.range(4, 10),
        _ => rng.range(10, 24),
    };
    let ls = L::table(n, rng);
    let leaves: Vec<Spec<L, L, F>> = (0..4)
        .map(|i| {
            let mut s = random_spec_on::<CF, L, L, F>(rng, &ls, &ls);
            if i == 0 {
                // identity plus something nilpotent
                let f = CF::fld();
                for (c, v) in s.cols.iter_mut() {
                    v.retain(|r, _| r < c);
                    v.insert(*c, f.int(1));
                }
            }
            s
        })
        .collect();
    fn build<CF: TField, L: TLabel, F: TFil>(
        obs: &mut Obs,
        rng: &mut Rng,
        leaves: &[Spec<L, L, F>],
        depth: usize,
        path: &mut String,
    ) -> (Dyn<CF, L, L, F>, Spec<L, L, F>) {
        if depth == 0 || rng.chance(1, 6) {
            let i = rng.below(leaves.len());
            path.push_str(&format!("M{i}"));
            let (a, b) = (Style::draw(rng), Style::draw(rng));
            return (Dyn::from_spec(&leaves[i], a, b, rng), leaves[i].clone());
        }
        match rng.below(9) {
            0..=3 => {
                path.push('(');
                let (a, sa) = build::<CF, L, F>(obs, rng, leaves, depth - 1, path);
                path.push('*');
                let (b, sb) = build::<CF, L, F>(obs, rng, leaves, depth - 1, path);
                path.push(')');
                let s = Spec {
                    cols: mul::<CF, _, _, _>(&sa.cols, &sb.cols),
                    fil: sa.fil,
                    flat: sb.flat,
                    subs: sb.subs,
                };
                let m = product(a, b);
                obs.all(&m, &s, path);
                obs.ctx.add("products_in_trees", 1);
                let nd = s.subs.len();
                // keep the number of terms of deep expressions bounded
                if s.cols.keys().any(|c| m.column(*c).nth(120).is_some()) {
                    path.push_str("~C");
                    (Dyn::erase(m.consolidate(), nd), s)
                } else {
                    (Dyn::erase(m, nd), s)
                }
            }
            4..=6 => {
                path.push('(');
                let (a, sa) = build::<CF, L, F>(obs, rng, leaves, depth - 1, path);
                path.push('+');
                let (b, sb) = build::<CF, L, F>(obs, rng, leaves, depth - 1, path);
                path.push(')');
                let s = Spec { cols: add::<CF, _, _>(&sa.cols, &sb.cols), ..sa.clone() };
                let m = sum(a, b);
                obs.matrix(&m, &s.cols, path);
                obs.ctx.add("sums_in_trees", 1);
                let fil = s.fil.clone();
                let nb = s.dim_basis();
                let nd = s.subs.len();
                (Dyn::erase(m.with_filtration(move |r: L| fil[&r]).with_basis(nb), nd), s)
            }
            k => {
                let (a, s) = build::<CF, L, F>(obs, rng, leaves, depth - 1, path);
                path.push_str(["~c", "~C"][k - 7]);
                let nd = s.subs.len();
                if k == 7 {
                    (Dyn::erase(a.consolidate(), nd), s)
                } else {
                    (Dyn::erase(a.cache_cols(), nd), s)
                }
            }
        }
    }
    let mut obs = Obs { ctx, agreement_only: false };
    let mut path = String::new();
    let depth = rng.range(1, 4);
    let (m, s) = build::<CF, L, F>(&mut obs, rng, &leaves, depth, &mut path);
    obs.all(&m, &s, &path);
    ctx.sig(&format!("{path}{leaves:?}"));
    ctx.describe(|| format!("{} {} {} n={n} {path}", CF::NAME, L::NAME, F::NAME));
    ctx.nontrivial = path.len() > 2;
    ctx.max("largest_expression", path.matches('M').count() as u64);
}

/// Long dense columns: thousands of terms with massive cancellation.
fn long<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let (rl, ml) = (L::table(rng.range(20, 300), rng), <usize as TLabel>::table(rng.range(100, 400), rng));
    let cl: Vec<isize> = <isize as TLabel>::table(3, rng);
    let f = CF::fld();
    let mut sa = random_spec_on::<CF, usize, L, F>(rng, &ml, &rl);
    for v in sa.cols.values_mut() {
        *v = rl.iter().filter_map(|r| rng.chance(1, 6).then(|| (*r, f.unit(rng)))).collect();
    }
    let mut sb = random_spec_on::<CF, isize, usize, usize>(rng, &cl, &ml);
    for v in sb.cols.values_mut() {
        *v = ml.iter().filter_map(|r| rng.chance(5, 6).then(|| (*r, f.unit(rng)))).collect();
    }
    let a = Dyn::<CF, usize, L, F>::from_spec(&sa, Style::Split, Style::Shuffled, rng);
    let b = Dyn::<CF, isize, usize, usize>::from_spec(&sb, Style::Cancelling, Style::Split, rng);
    let ab = mul::<CF, _, _, _>(&sa.cols, &sb.cols);
    let s = Spec { cols: ab, fil: sa.fil.clone(), flat: sb.flat.clone(), subs: sb.subs.clone() };
    let mut obs = Obs { ctx, agreement_only: false };
    obs.all(&product(&a, &b), &s, "long AB");
    obs.merged_annotated(&product(&a, &b).consolidate(), &s.cols, "long AB consolidated");
    let t = product(&a, &b).column(cl[0]).count();
    ctx.max("terms_in_one_product_column", t as u64);
    ctx.sig(&format!("{sa:?}"));
    ctx.nontrivial = true;
}

fn main() {
    vcore::driver::run("C05", vcore::gen::self_check, |ctx, rng, idx| {
        if idx % 400 == 399 {
            return match rng.below(2) {
                0 => long::<Z2, Lab, isize>(ctx, rng),
                _ => long::<Z13, usize, NotNan<f64>>(ctx, rng),
            };
        }
        match idx % 6 {
            0 => chain::<Z2, Lab, usize, isize, NotNan<f64>>(ctx, rng),
            1 => chain::<Z7, isize, Lab, usize, ()>(ctx, rng),
            2 => chain::<Q, usize, isize, Lab, isize>(ctx, rng),
            3 => tree::<Z3, usize, NotNan<f64>>(ctx, rng),
            4 => tree::<Z13, Lab, usize>(ctx, rng),
            _ => tree::<Q, isize, ()>(ctx, rng),
        }
    });
}
