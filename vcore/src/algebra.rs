//! Reference linear algebra: sparse columns over a reference field, left-to-right reduction,
//! rank computations. Shares no code with the library.
use crate::field::{Fld, Sc};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::Hash;

/// Sparse vector: ascending keys, no zeros.
pub type SVec<K> = BTreeMap<K, Sc>;

pub fn add_term<K: Ord>(v: &mut SVec<K>, k: K, c: Sc, f: Fld) {
    if f.is_zero(c) {
        return;
    }
    match v.entry(k) {
        std::collections::btree_map::Entry::Vacant(e) => {
            e.insert(c);
        }
        std::collections::btree_map::Entry::Occupied(mut e) => {
            let s = f.add(*e.get(), c);
            if f.is_zero(s) {
                e.remove();
            } else {
                *e.get_mut() = s;
            }
        }
    }
}

/// v += c * w
pub fn axpy<K: Ord + Clone>(v: &mut SVec<K>, c: Sc, w: &SVec<K>, f: Fld) {
    for (k, x) in w {
        add_term(v, k.clone(), f.mul(c, *x), f);
    }
}

pub fn lincomb<K: Ord>(terms: impl IntoIterator<Item = (K, Sc)>, f: Fld) -> SVec<K> {
    let mut v = SVec::new();
    for (k, c) in terms {
        add_term(&mut v, k, c, f);
    }
    v
}

/// Matrix (columns keyed by C) times vector.
pub fn matvec<C: Ord + Hash + Eq + Clone + Debug, R: Ord + Clone>(
    m: &HashMap<C, SVec<R>>,
    v: &SVec<C>,
    f: Fld,
) -> SVec<R> {
    let mut out = SVec::new();
    for (c, x) in v {
        axpy(&mut out, *x, &m[c], f);
    }
    out
}

/// Left-to-right column reduction. `cols[j]` for j in `order`; pivots are the largest `rank[row]`.
/// Returns pivot row of every column (None = reduces to zero).
pub fn reduce_lows(
    cols: &[SVec<usize>],
    order: &[usize],
    rank: &[usize],
    f: Fld,
) -> HashMap<usize, Option<usize>> {
    let mut lows = HashMap::new();
    let mut by_pivot: HashMap<usize, BTreeMap<usize, (usize, Sc)>> = HashMap::new();
    for &j in order {
        // key by rank so that the last key is the pivot
        let mut c: BTreeMap<usize, (usize, Sc)> =
            cols[j].iter().map(|(r, x)| (rank[*r], (*r, *x))).collect();
        loop {
            let Some((&pr, &(prow, pc))) = c.iter().next_back() else {
                lows.insert(j, None);
                break;
            };
            if let Some(w) = by_pivot.get(&pr) {
                let wc = w[&pr].1;
                let m = f.neg(f.mul(pc, f.inv(wc)));
                for (k, (row, x)) in w {
                    let add = f.mul(m, *x);
                    let s = match c.get(k) {
                        Some((_, y)) => f.add(*y, add),
                        None => add,
                    };
                    if f.is_zero(s) {
                        c.remove(k);
                    } else {
                        c.insert(*k, (*row, s));
                    }
                }
            } else {
                by_pivot.insert(pr, c);
                lows.insert(j, Some(prow));
                break;
            }
        }
    }
    lows
}

/// Rank of a set of sparse vectors.
pub fn rank<K: Ord + Clone>(vs: impl IntoIterator<Item = SVec<K>>, f: Fld) -> usize {
    let mut piv: BTreeMap<K, SVec<K>> = BTreeMap::new();
    for mut v in vs {
        loop {
            let Some((k, c)) = v.iter().next_back().map(|(k, c)| (k.clone(), *c)) else {
                break;
            };
            match piv.get(&k) {
                Some(w) => {
                    let m = f.neg(f.mul(c, f.inv(w[&k])));
                    axpy(&mut v, m, w, f);
                }
                None => {
                    piv.insert(k, v);
                    break;
                }
            }
        }
    }
    piv.len()
}

/// Persistence pairs by the rank formula on lower-left submatrices (independent of `reduce_lows`):
/// (row at rank i, column at position j) is a pair iff
/// r(i,j) - r(i+1,j) + r(i+1,j-1) - r(i,j-1) = 1, r(i,j) = rank of rows >= i, columns <= j.
pub fn pairs_by_ranks(
    cols: &[SVec<usize>],
    order: &[usize],
    rank_of: &[usize],
    n_ranks: usize,
    f: Fld,
) -> Vec<(usize, usize)> {
    let r = |i: usize, j: usize| -> i64 {
        // columns order[0..j], rows with rank >= i
        rank(
            order[..j].iter().map(|c| {
                cols[*c]
                    .iter()
                    .filter(|(row, _)| rank_of[**row] >= i)
                    .map(|(row, x)| (*row, *x))
                    .collect()
            }),
            f,
        ) as i64
    };
    let mut out = vec![];
    let mut table = vec![vec![0i64; order.len() + 1]; n_ranks + 2];
    for (i, row) in table.iter_mut().enumerate() {
        for (j, t) in row.iter_mut().enumerate() {
            *t = r(i, j);
        }
    }
    for i in 0..n_ranks {
        for j in 1..=order.len() {
            if table[i][j] - table[i + 1][j] + table[i + 1][j - 1] - table[i][j - 1] == 1 {
                let row = (0..rank_of.len()).find(|r| rank_of[*r] == i).unwrap();
                out.push((row, order[j - 1]));
            }
        }
    }
    out
}
