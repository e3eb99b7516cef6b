//! C13: caching is transparent, computes every column once, and is re-entrant.
use phlite::matrices::adaptors::WithCachedCols;
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::{HasRowFiltration, MatrixOracle};
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::rc::{Rc, Weak};
use vcore::field::TField;
use vcore::gen::{self, Size};
use vcore::labels::{TFil, TLabel};
use vcore::mon::{Case, Mat, Style};
use vcore::red::*;
use vcore::{dispatch_few, ensure, ensure_eq, Ctx, Rng};

fn at_most_once<CF: TField, L: TLabel, F: TFil>(m: &Mat<CF, L, F>, what: &str) {
    for (i, k) in m.log.col_calls.borrow().iter().enumerate() {
        ensure!(*k <= 1, "{what}: column of cell {i} was requested {k} times from the wrapped matrix");
    }
}

fn case<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    match rng.below(9) {
        8 => failing::<CF>(ctx, rng),
        0..=2 => interleave::<CF, L, F>(ctx, rng),
        3 => products::<CF, L, F>(ctx, rng),
        4 => reductions::<CF, L, F>(ctx, rng),
        5 => recursive::<CF>(ctx, rng),
        _ => interleave::<CF, L, F>(ctx, rng),
    }
}

/// Random interleavings of nested, partially consumed and abandoned reads.
fn interleave<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    let size = match rng.below(400) {
        0 => Size::Large,
        1..=20 => Size::Medium,
        _ => Size::Small,
    };
    let many = rng.chance(1, 200);
    let mut long = false;
    let cx = if many {
        // thousands of distinct columns
        let n = rng.range(3000, 9000);
        let f = CF::fld();
        vcore::gen::Complex {
            f,
            dim: vec![0; n],
            lvl: vec![0; n],
            cols: (0..n)
                .map(|_| (0..rng.below(3)).map(|_| (rng.below(n), f.unit(rng))).collect())
                .collect(),
            planted: None,
            kind: "many columns",
        }
    } else if rng.chance(1, 60) {
        // a few very long columns
        long = true;
        let n = match rng.below(12) {
            _ if cfg!(miri) => 80,
            0 => (1usize << rng.range(11, 17)) + rng.below(3),
            1 => rng.range(2000, 20_000),
            _ => rng.range(300, 1500),
        };
        let f = CF::fld();
        vcore::gen::Complex {
            f,
            dim: vec![0; n],
            lvl: vec![0; n],
            cols: (0..n)
                .map(|i| if i < 4 { (0..n).map(|k| (k, f.unit(rng))).collect() } else { Default::default() })
                .collect(),
            planted: None,
            kind: "long columns",
        }
    } else if rng.chance(1, 2) {
        gen::arbitrary_square(rng, CF::P, size, F::TRIVIAL)
    } else {
        gen::complex(rng, CF::P, size, F::TRIVIAL)
    };
    let n = cx.n();
    let case = Case::<L, F>::new(cx, rng);
    let style = Style::draw(rng);
    let m = case.oracle::<CF>(&case.cx.cols, case.basis(true), style, rng);
    ctx.max("longest_cached_column", m.cols.iter().map(|c| c.len()).max().unwrap_or(0) as u64);
    ctx.describe(|| format!("interleaved reads {} {} {} {style:?}", CF::NAME, L::NAME, case.cx.brief()));
    if n == 0 {
        return;
    }
    // the cache is public: it can also be built by hand, pre-filled with true columns
    let prefilled = rng.chance(1, 6);
    let cached = if prefilled {
        let mut h: HashMap<L, Vec<(CF, L)>> = HashMap::new();
        for i in 0..n {
            if rng.chance(1, 3) {
                h.insert(case.labels[i], m.cols[i].clone());
            }
        }
        WithCachedCols { oracle: &m, cache: RefCell::new(h) }
    } else {
        (&m).cache_cols()
    };
    ensure_eq!(m.log.requests.get(), 0, "columns requested by building the cache");
    let nested = rng.chance(1, 6);
    // ... and emptied by its owner, wholly or in part, while columns are being read
    let evict = !nested && rng.chance(1, 6);
    let mut allowed = vec![1u64; n];
    let ops = if many { 3 * n } else { rng.range(5, 120) };
    let mut trace = String::new();
    macro_rules! drive {
        ($c:expr, $cache:expr) => {{
            let c = $c;
            let cache: Option<&RefCell<HashMap<L, Vec<(CF, L)>>>> = $cache;
            // (column, position, iterator)
            let mut open: Vec<(usize, usize, Box<dyn Iterator<Item = (CF, L)> + '_>)> = vec![];
            let mut asked: HashSet<usize> = HashSet::new();
            let hot = if long { rng.below(4.min(n)) } else { rng.below(n) };
            let next_seq = Cell::new(0usize);
            for step in 0..ops {
                match rng.below(10) {
                    0..=3 => {
                        let j = if many && rng.chance(2, 3) {
                            let s = next_seq.get();
                            next_seq.set(s + 1);
                            s % n
                        } else if rng.chance(1, 3) {
                            hot
                        } else if long && rng.chance(1, 3) {
                            rng.below(4.min(n))
                        } else {
                            rng.below(n)
                        };
                        asked.insert(j);
                        let it = c.column(case.labels[j]);
                        open.push((j, 0, Box::new(it)));
                        ctx.max("iterators_alive_at_once", open.len() as u64);
                        if ops < 200 {
                            trace.push_str(&format!("o{j}"));
                        }
                    }
                    4 => {
                        // annotated read of a whole column
                        let j = if long && rng.chance(1, 2) { hot } else { rng.below(n) };
                        asked.insert(j);
                        let got: Vec<(CF, L, F)> = c.column_with_filtration(case.labels[j]).map(|e| e.into()).collect();
                        let want: Vec<(CF, L, F)> = m.cols[j].iter().map(|(x, l)| (*x, *l, case.fval(case.id(*l)))).collect();
                        ensure!(got == want, "annotated column {j} read through the cache differs: {got:?} instead of {want:?}");
                        ctx.add("full_reads_compared", 1);
                    }
                    5 | 6 if !open.is_empty() => {
                        let k = rng.below(open.len());
                        let (j, pos, mut it) = open.swap_remove(k);
                        if rng.chance(3, 4) {
                            // run to the end
                            let rest: Vec<(CF, L)> = it.by_ref().collect();
                            ensure!(
                                rest[..] == m.cols[j][pos.min(m.cols[j].len())..],
                                "column {j} read through the cache (from position {pos}, step {step}) differs: {rest:?} instead of {:?}",
                                &m.cols[j][pos.min(m.cols[j].len())..]
                            );
                            ctx.add("full_reads_compared", 1);
                        } else {
                            ctx.add("abandoned_reads", 1);
                        }
                        if ops < 200 {
                            trace.push_str(&format!("e{j}"));
                        }
                    }
                    _ if !open.is_empty() => {
                        let k = rng.below(open.len());
                        let (j, pos, it) = &mut open[k];
                        let got = it.next();
                        let want = m.cols[*j].get(*pos).copied();
                        ensure!(got == want, "entry {pos} of column {j} read through the cache is {got:?} instead of {want:?} (step {step})");
                        *pos += 1;
                        ctx.add("interleaved_steps", 1);
                        if ops < 200 {
                            trace.push_str(&format!("n{j}"));
                        }
                    }
                    _ => {}
                }
                if open.len() > 12 {
                    drop(open.remove(0));
                }
                if let (Some(cache), true) = (cache, rng.chance(1, 12)) {
                    let gone: Vec<L> = if rng.chance(1, 3) {
                        cache.borrow_mut().drain().map(|(l, _)| l).collect()
                    } else {
                        let l = case.labels[rng.below(n)];
                        cache.borrow_mut().remove(&l).map(|_| l).into_iter().collect()
                    };
                    for l in &gone {
                        allowed[case.id(*l)] += 1;
                    }
                    ctx.add("columns_evicted_by_the_owner", gone.len() as u64);
                }
                if step % 16 == 0 && !many && n < 3000 {
                    for (i, k) in m.log.col_calls.borrow().iter().enumerate() {
                        ensure!(*k == 0 || asked.contains(&i), "column {i} was evaluated before it was asked for");
                    }
                }
            }
            drop(open);
            for (i, k) in m.log.col_calls.borrow().iter().enumerate() {
                ensure!(*k == 0 || asked.contains(&i), "column {i} was evaluated although it was never asked for");
            }
            ctx.add("distinct_columns_asked", asked.len() as u64);
            ctx.max("most_distinct_columns_in_one_cache", asked.len() as u64);
        }};
    }
    if nested {
        drive!(cached.cache_cols(), None);
    } else {
        drive!(&cached, evict.then_some(&cached.cache));
        // a clone of a filled cache answers the same and independently
        let c2 = cached.clone();
        let j = rng.below(n);
        let a: Vec<_> = c2.column(case.labels[j]).collect();
        ensure!(a == m.cols[j], "clone of a filled cache: column {j} is {a:?}");
        let b: Vec<_> = c2.column(case.labels[j]).collect();
        ensure!(b == a, "clone of a filled cache changes its answer");
    }
    for (i, k) in m.log.col_calls.borrow().iter().enumerate() {
        ensure!(*k as u64 <= allowed[i], "cache: column of cell {i} was requested {k} times from the wrapped matrix");
    }
    ctx.add("interleavings", 1);
    ctx.sig(&format!("{trace}{}{many}", case.cx.fingerprint()));
    ctx.nontrivial = true;
}

const UNWINDS: &str = "the wrapped matrix unwinds";

/// An oracle whose requests may unwind, when the column is asked for or midway through its entries.
struct Failing<CF> {
    cols: Vec<Vec<(CF, usize)>>,
    calls: RefCell<Vec<u64>>,
    /// entries the requests may still hand out before one unwinds
    fuse: Cell<usize>,
    at_once: Cell<bool>,
    blown: Cell<u64>,
}
impl<CF: TField> MatrixOracle for Failing<CF> {
    type CoefficientField = CF;
    type ColT = usize;
    type RowT = usize;
    fn column(&self, col: usize) -> impl Iterator<Item = (CF, usize)> {
        self.calls.borrow_mut()[col] += 1;
        if self.at_once.replace(false) {
            self.blown.set(self.blown.get() + 1);
            vcore::skip(UNWINDS);
        }
        self.cols[col].iter().map(|e| {
            if self.fuse.get() == 0 {
                self.fuse.set(usize::MAX);
                self.blown.set(self.blown.get() + 1);
                vcore::skip(UNWINDS);
            }
            self.fuse.set(self.fuse.get() - 1);
            *e
        })
    }
}

/// Requests that unwind leave nothing behind: the column can be asked for again and is then complete.
fn failing<CF: TField>(ctx: &mut Ctx, rng: &mut Rng) {
    let f = CF::fld();
    let n = rng.range(1, 8);
    let cols: Vec<Vec<(CF, usize)>> = (0..n).map(|_| (0..rng.below(12)).map(|_| (CF::enc(f.unit(rng)), rng.below(n))).collect()).collect();
    ctx.describe(|| format!("requests that unwind {} {cols:?}", CF::NAME));
    ctx.sig(&format!("fail{cols:?}"));
    let m = Failing { cols: cols.clone(), calls: RefCell::new(vec![0; n]), fuse: Cell::new(usize::MAX), at_once: Cell::new(false), blown: Cell::new(0) };
    let c = (&m).cache_cols();
    let mut allowed = vec![1u64; n];
    let mut failed = HashSet::new();
    let mut open: Vec<(usize, usize, Box<dyn Iterator<Item = (CF, usize)> + '_>)> = vec![];
    for step in 0..rng.range(10, 60) {
        let j = rng.below(n);
        if rng.chance(1, 3) {
            match rng.below(4) {
                0 => m.at_once.set(true),
                _ => m.fuse.set(rng.below(12)),
            }
        }
        let before = m.blown.get();
        let r = vcore::driver::guarded(|| match rng.below(3) {
            0 => (0, c.column(j).collect::<Vec<_>>()),
            1 => (1, product(&c, &c).column(j).collect()),
            _ => {
                let mut it = c.column(j);
                let first: Vec<_> = it.by_ref().take(1).collect();
                open.push((j, first.len(), Box::new(it)));
                (2, first)
            }
        });
        m.at_once.set(false);
        m.fuse.set(usize::MAX);
        match r {
            Ok((kind, got)) => {
                let want: Vec<(CF, usize)> = match kind {
                    0 => cols[j].clone(),
                    1 => cols[j].iter().flat_map(|(x, k)| cols[*k].iter().map(move |(y, r)| (*x * *y, *r))).collect(),
                    _ => cols[j].iter().take(1).copied().collect(),
                };
                if kind == 1 {
                    // the product may list its entries in any order
                    let key = |v: &Vec<(CF, usize)>| {
                        let mut k: Vec<String> = v.iter().map(|e| format!("{e:?}")).collect();
                        k.sort();
                        k
                    };
                    ensure!(key(&got) == key(&want), "step {step}: column {j} of a product over a cache is {got:?} instead of {want:?}");
                } else {
                    ensure!(got == want, "step {step}: column {j} read through the cache is {got:?} instead of {want:?} (unwound before: {failed:?})");
                }
                if kind == 0 && failed.contains(&j) {
                    ctx.add("reads_after_a_failed_one", 1);
                }
            }
            Err(vcore::driver::Outcome::Skipped(why)) => {
                if why != UNWINDS {
                    vcore::skip(why);
                }
                ensure!(m.blown.get() > before, "a request unwound although the wrapped matrix did not");
                failed.insert(j);
                ctx.add("requests_that_unwound", 1);
                // whichever column was being computed may be requested once more
                for a in allowed.iter_mut() {
                    *a += 1;
                }
            }
            Err(vcore::driver::Outcome::Violated(m)) => vcore::viol(m),
            Err(_) => vcore::viol("a request ended the program".to_string()),
        }
        if !open.is_empty() && rng.chance(1, 2) {
            let (j, pos, it) = open.swap_remove(rng.below(open.len()));
            let rest: Vec<_> = it.collect();
            ensure!(rest[..] == cols[j][pos..], "step {step}: the rest of column {j} from position {pos} is {rest:?} instead of {:?}", &cols[j][pos..]);
        }
    }
    for j in 0..n {
        let got: Vec<_> = c.column(j).collect();
        ensure!(got == cols[j], "column {j} read through the cache at the end is {got:?} instead of {:?}", cols[j]);
        if failed.contains(&j) {
            ctx.add("reads_after_a_failed_one", 1);
        }
    }
    for (i, k) in m.calls.borrow().iter().enumerate() {
        ensure!(*k <= allowed[i], "column {i} was requested {k} times from the wrapped matrix, {} requests of which can have unwound", allowed[i] - 1);
    }
    ctx.nontrivial = m.blown.get() > 0;
}

/// Products and sums over a shared cache, including a cached matrix times itself.
fn products<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    let size = Size::draw_no_large(rng);
    let cx = gen::arbitrary_square(rng, CF::P, size, F::TRIVIAL);
    let n = cx.n();
    let case = Case::<L, F>::new(cx, rng);
    let style = Style::draw(rng);
    let m = case.oracle::<CF>(&case.cx.cols, case.basis(true), style, rng);
    ctx.describe(|| format!("products over a cache {} {} {} {style:?}", CF::NAME, L::NAME, case.cx.brief()));
    ctx.sig(&format!("p{}", case.cx.fingerprint()));
    let c = (&m).cache_cols();
    let cc = product(&c, &c);
    let cs = sum(&c, product(&c, &c));
    ensure_eq!(m.log.requests.get(), 0, "columns requested by building products of a cache");
    let mut order: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut order);
    let mut got = vec![];
    for &j in &order {
        got.push((j, cc.column(case.labels[j]).collect::<Vec<_>>()));
        got.push((j, cs.column(case.labels[j]).collect::<Vec<_>>()));
        let e: Vec<(CF, L, F)> = cc.column_with_filtration(case.labels[j]).map(|e| e.into()).collect();
        got.push((j, e.into_iter().map(|(x, l, _)| (x, l)).collect()));
    }
    at_most_once(&m, "product of a cache with itself");
    let bb = product(&m, &m);
    let bs = sum(&m, product(&m, &m));
    for (k, (j, col)) in got.iter().enumerate() {
        let want: Vec<(CF, L)> = if k % 3 == 1 {
            bs.column(case.labels[*j]).collect()
        } else {
            bb.column(case.labels[*j]).collect()
        };
        ensure!(*col == want, "column {j} of a product over a cache is {col:?} instead of {want:?}");
        ctx.add("product_columns_compared", 1);
        if want.len() > 3 {
            ctx.nontrivial = true;
        }
    }
}

/// Both algorithms over a cache, one after the other: same results, every column evaluated once.
fn reductions<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    let size = Size::draw_no_large(rng);
    let cx = gen::complex(rng, CF::P, size, F::TRIVIAL);
    let md = cx.max_dim();
    let case = Case::<L, F>::new(cx, rng);
    let style = Style::draw(rng);
    let m = case.oracle::<CF>(&case.cx.cols, case.basis(true), style, rng);
    ctx.describe(|| format!("reductions over a cache {} {} {} {style:?}", CF::NAME, L::NAME, case.cx.brief()));
    ctx.sig(&format!("r{}", case.cx.fingerprint()));
    m.log.budget.set(m.poly_budget().min(1_000_000_000));
    let id = |l: L| case.id(l);
    let c = (&m).cache_cols();
    let a = standard_dgm(&c, rng.chance(1, 2), id);
    let b = clearing_dgm(&c, (0..=md).rev(), id);
    let cr = (&c).reverse().unreverse();
    let d = standard_dgm(&cr, false, id);
    at_most_once(&m, "reductions over a cache");
    m.reset_log();
    m.log.budget.set(m.poly_budget().min(1_000_000_000));
    let a0 = standard_dgm(&m, false, id);
    let b0 = clearing_dgm(&m, (0..=md).rev(), id);
    ensure!(a == a0 && d == a0, "standard algorithm over a cache: {}", a.diff(&a0));
    ensure!(b == b0, "clearing over a cache: {}", b.diff(&b0));
    ctx.add("reductions_compared", 3);
    ctx.nontrivial = !a.pairs.is_empty();
}

/// A matrix whose columns are defined through its own cache: column k reads columns below k.
struct Recursive<CF: TField> {
    cache: RefCell<Weak<WithCachedCols<Recursive<CF>>>>,
    deps: Vec<Vec<usize>>,
    calls: RefCell<Vec<u64>>,
    unit: CF,
}
impl<CF: TField> MatrixOracle for Recursive<CF> {
    type CoefficientField = CF;
    type ColT = usize;
    type RowT = usize;
    fn column(&self, col: usize) -> impl Iterator<Item = (CF, usize)> {
        self.calls.borrow_mut()[col] += 1;
        let cache = self.cache.borrow().upgrade();
        let mut out = vec![(self.unit, col)];
        if let Some(c) = cache {
            for d in &self.deps[col] {
                out.extend(c.column(*d).map(|(x, r)| (x * self.unit, r)));
                out.truncate(200);
            }
        }
        out.into_iter()
    }
}

fn recursive<CF: TField>(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.range(1, 40);
    let deps: Vec<Vec<usize>> = (0..n).map(|k| if k == 0 { vec![] } else { (0..rng.below(4)).map(|_| rng.below(k)).collect() }).collect();
    ctx.describe(|| format!("recursive columns {} {deps:?}", CF::NAME));
    ctx.sig(&format!("rec{deps:?}"));
    let unit = CF::enc(CF::fld().sign(rng));
    // reference
    let mut want: Vec<Vec<(CF, usize)>> = vec![];
    for k in 0..n {
        let mut out = vec![(unit, k)];
        for d in &deps[k] {
            out.extend(want[*d].iter().map(|(x, r)| (*x * unit, *r)));
            out.truncate(200);
        }
        want.push(out);
    }
    let c = Rc::new(
        Recursive { cache: RefCell::new(Weak::new()), deps, calls: RefCell::new(vec![0; n]), unit }.cache_cols(),
    );
    *c.oracle.cache.borrow_mut() = Rc::downgrade(&c);
    for _ in 0..rng.range(1, 2 * n) {
        let k = rng.below(n);
        let got: Vec<_> = c.column(k).collect();
        ensure!(got == want[k], "recursively defined column {k} is {got:?} instead of {:?}", want[k]);
        ctx.add("recursive_reads_compared", 1);
    }
    for (i, k) in c.oracle.calls.borrow().iter().enumerate() {
        ensure!(*k <= 1, "recursively defined column {i} was evaluated {k} times");
    }
    ctx.nontrivial = n > 5;
}

fn main() {
    vcore::driver::run("C13", gen::self_check, |ctx, rng, idx| {
        dispatch_few!(idx as usize, case(ctx, rng))
    })
}
