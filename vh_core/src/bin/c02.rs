//! C02: a heap column always represents the exact linear combination put into it.
use phlite::columns::{BHCol, ColumnEntry};
use std::cmp::Ordering;
use vcore::algebra::*;
use vcore::field::{Sc, TField};
use vcore::labels::{TFil, TLabel};
use vcore::{dispatch, ensure, ensure_eq, Ctx, Rng};

/// Reference: terms keyed by rank in the (filtration, row) order.
type Model = SVec<usize>;

struct World<L, F> {
    /// (filtration, row) in ascending order
    rows: Vec<(F, L)>,
}

impl<L: TLabel, F: TFil> World<L, F> {
    fn entry<CF: TField>(&self, k: usize, c: Sc) -> ColumnEntry<F, L, CF> {
        ColumnEntry {
            filtration_value: self.rows[k].0,
            row_index: self.rows[k].1,
            coeff: CF::enc(c),
        }
    }
    fn check<CF: TField>(&self, what: &str, got: Option<ColumnEntry<F, L, CF>>, want: Option<(usize, Sc)>) {
        let g = got.map(|e| (e.filtration_value, e.row_index, e.coeff.dec()));
        let w = want.map(|(k, c)| (self.rows[k].0, self.rows[k].1, c));
        ensure!(g == w, "{what}: got {g:?}, expected {w:?}");
    }
}

fn top(m: &Model) -> Option<(usize, Sc)> {
    m.iter().next_back().map(|(k, c)| (*k, *c))
}

fn case<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let f = CF::fld();
    let n = match rng.below(40) {
        0 => rng.range(200, 2000),
        1..=8 => rng.range(10, 60),
        _ => rng.range(1, 8),
    };
    let levels = if F::TRIVIAL { 1 } else { rng.range(1, n.min(6)) };
    let labels = L::table(n, rng);
    let fvals = F::table(levels, rng);
    let lv: Vec<usize> = (0..n).map(|_| rng.below(levels)).collect();
    let mut ord: Vec<usize> = (0..n).collect();
    ord.sort_by_key(|i| (lv[*i], *i));
    let w = World { rows: ord.iter().map(|i| (fvals[lv[*i]], labels[*i])).collect() };
    entries::<CF, L, F>(ctx, rng, &w, &ord, &lv);

    let mut cols: Vec<(BHCol<F, L, CF>, Model)> = vec![(BHCol::default(), Model::new())];
    let steps = match rng.below(30) {
        0 => rng.range(500, 3000),
        _ => rng.range(5, 60),
    };
    let mut burst = match rng.below(150) {
        0 => 70_000,
        1..=10 => 300,
        _ => 6,
    };
    let narrow = rng.chance(1, 2);
    let mut text = String::new();
    let small = |rng: &mut Rng| if CF::P == 0 { f.sign(rng) } else { f.unit(rng) };
    for step in 0..steps {
        let k = rng.below(cols.len());
        let fork = rng.below(30) == 0 && cols.len() < 4;
        let (col, model) = &mut cols[k];
        let row = |rng: &mut Rng| if narrow { rng.below(n.min(3)) } else { rng.below(n) };
        let op = rng.below(16);
        if steps < 70 {
            text.push_str(&format!("{k}:{op} "));
        }
        match op {
            0..=1 => {
                let (r, c) = (row(rng), small(rng));
                col.add_entry(w.entry(r, c));
                add_term(model, r, c, f);
            }
            2 => {
                let (r, c) = (row(rng), small(rng));
                col.add_tuple((CF::enc(c), w.rows[r].1, w.rows[r].0));
                add_term(model, r, c, f);
            }
            3..=6 => {
                // bulk, optionally with the negative of everything represented so far
                let mut list: Vec<(usize, Sc)> = vec![];
                let len = if rng.chance(1, 3) { rng.below(burst + 1) } else { rng.below(6) };
                if rng.chance(1, 4) {
                    list.extend(model.iter().map(|(r, c)| (*r, f.neg(*c))));
                }
                if rng.chance(1, 2) && len > 0 {
                    // the same row many times
                    let r = row(rng);
                    for _ in 0..len {
                        list.push((r, small(rng)));
                    }
                } else {
                    for _ in 0..len {
                        list.push((row(rng), small(rng)));
                    }
                }
                if rng.chance(1, 2) {
                    rng.shuffle(&mut list);
                }
                match rng.below(6) {
                    0 => col.add_entries(list.iter().map(|(r, c)| w.entry(*r, *c))),
                    1 => col.add_entries(list.iter().map(|(r, c)| w.entry(*r, *c)).collect::<Vec<_>>()),
                    2 => col.add_tuples(list.iter().map(|(r, c)| (CF::enc(*c), w.rows[*r].1, w.rows[*r].0))),
                    3 => col.add_entries(vcore::read::hinted(list.iter().map(|(r, c)| w.entry(*r, *c)).collect())),
                    4 => col.add_tuples(vcore::read::hinted(
                        list.iter().map(|(r, c)| (CF::enc(*c), w.rows[*r].1, w.rows[*r].0)).collect(),
                    )),
                    // no usable size hint
                    _ => col.add_entries(list.iter().filter(|x| x.0 < usize::MAX).map(|(r, c)| w.entry(*r, *c))),
                }
                ctx.max("largest_bulk", list.len() as u64);
                if list.len() > 1000 {
                    burst = 6;
                }
                for (r, c) in list {
                    add_term(model, r, c, f);
                }
            }
            7..=8 => {
                let want = top(model);
                w.check(&format!("pop_pivot (step {step})"), col.pop_pivot(), want);
                if let Some((r, _)) = want {
                    model.remove(&r);
                }
                ctx.add("pivots_compared", 1);
            }
            9..=11 => {
                let want = top(model);
                w.check(&format!("clone_pivot (step {step})"), col.clone_pivot(), want);
                if rng.chance(1, 2) {
                    w.check(&format!("peek_pivot after clone_pivot (step {step})"), col.peek_pivot().cloned(), want);
                }
                if rng.chance(1, 3) {
                    w.check(&format!("repeated clone_pivot (step {step})"), col.clone_pivot(), want);
                }
                ctx.add("pivots_compared", 1);
            }
            12 => {
                // drain a few, then abandon the iterator
                let k = rng.below(4);
                let got: Vec<_> = vcore::read::drain(col.drain_sorted().take(k));
                for g in got.iter() {
                    let want = top(model);
                    w.check(&format!("drain_sorted (step {step})"), Some(*g), want);
                    model.remove(&want.unwrap().0);
                }
                if got.len() < k {
                    ensure!(model.is_empty(), "drain_sorted ended although terms are left (step {step})");
                }
                ctx.add("partial_drains", 1);
            }
            13 => {
                // copy of the whole column
                let got = col.clone().to_sorted_vec();
                compare(&w, &format!("to_sorted_vec (step {step})"), got, model);
                ctx.add("full_contents_compared", 1);
            }
            14 if rng.chance(1, 4) => {
                let got: Vec<_> = vcore::read::drain(col.drain_sorted());
                compare(&w, &format!("drain_sorted (step {step})"), got, model);
                model.clear();
                w.check("pop_pivot after a full drain", col.pop_pivot(), None);
                ctx.add("full_contents_compared", 1);
            }
            _ => {
                // v += c * u with u another column's contents, scaled entry by entry
                let c = small(rng);
                let lc = CF::enc(c);
                let j = rng.below(cols.len());
                let src = cols[j].0.clone().to_sorted_vec();
                let srcm = cols[j].1.clone();
                let (col, model) = &mut cols[k];
                col.add_entries(src.into_iter().map(|e| e * lc));
                axpy(model, c, &srcm, f);
                ctx.add("columns_added", 1);
            }
        }
        if fork {
            let c = (cols[k].0.clone(), cols[k].1.clone());
            cols.push(c);
            ctx.add("columns_cloned", 1);
        }
        if CF::P == 0 && cols.iter().any(|c| c.1.values().any(|x| x.n.abs() > 1 << 40 || x.d > 1 << 20)) {
            break;
        }
        ctx.add("operations", 1);
    }
    for (i, (col, model)) in cols.into_iter().enumerate() {
        ctx.max("most_terms", model.len() as u64);
        if model.len() > 1 {
            ctx.nontrivial = true;
        }
        compare(&w, &format!("final contents of column {i}"), col.to_sorted_vec(), &model);
        ctx.add("full_contents_compared", 1);
    }
    ctx.describe(|| format!("{} {} {} rows={n} levels={levels} steps={steps} ops {text}", CF::NAME, L::NAME, F::NAME));
    ctx.sig(&format!("{}{text}{n}{lv:?}", CF::NAME));
}

fn compare<CF: TField, L: TLabel, F: TFil>(w: &World<L, F>, what: &str, got: Vec<ColumnEntry<F, L, CF>>, model: &Model) {
    ensure_eq!(got.len(), model.len(), "{what}: number of terms");
    for (e, (k, c)) in got.into_iter().zip(model.iter().rev()) {
        w.check(what, Some(e), Some((*k, *c)));
    }
}

/// Order, conversions and scaling of entries.
fn entries<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng, w: &World<L, F>, _ord: &[usize], _lv: &[usize]) {
    let f = CF::fld();
    let n = w.rows.len();
    for _ in 0..4 {
        let (i, j) = (rng.below(n), rng.below(n));
        let (a, b) = (f.unit(rng), f.unit(rng));
        let (x, y): (ColumnEntry<F, L, CF>, ColumnEntry<F, L, CF>) = (w.entry(i, a), w.entry(j, b));
        let want = i.cmp(&j);
        ensure_eq!(x.cmp(&y), want, "order of entries {i} and {j}");
        ensure_eq!(x.partial_cmp(&y), Some(want), "partial order of entries {i} and {j}");
        ensure_eq!(x < y, want == Ordering::Less, "entry {i} < entry {j}");
        ensure_eq!(x > y, want == Ordering::Greater, "entry {i} > entry {j}");
        ensure_eq!(x == y, i == j, "entry {i} == entry {j}");
        let t: (CF, L, F) = x.into();
        ensure!(t.0 == CF::enc(a) && t.1 == w.rows[i].1 && t.2 == w.rows[i].0, "entry {i} as a tuple is {t:?}");
        let back: ColumnEntry<F, L, CF> = t.into();
        w.check("entry from a tuple", Some(back), Some((i, a)));
        w.check("entry times a coefficient", Some(x * CF::enc(b)), Some((i, f.mul(a, b))));
        ctx.add("entry_comparisons", 1);
    }
}

fn main() {
    vcore::driver::run("C02", || {}, |ctx, rng, idx| {
        dispatch!(idx as usize, case(ctx, rng))
    })
}
