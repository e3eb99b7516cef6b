//! Shared checks for reductions: decode V, verify R = DV, decode diagrams.
use crate::algebra::*;
use crate::driver::viol;
use crate::field::TField;
use crate::mon::dec_ids;
use phlite::matrices::{HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension, SquareMatrix};
use phlite::reduction::{
    read_off_diagram, standard_algo, standard_algo_with_diagram, ClearedReductionMatrix, Diagram,
    StandardReductionMatrix,
};
use std::collections::{BTreeSet, HashMap};
use std::fmt::Debug;
use std::hash::Hash;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Dgm {
    pub pairs: BTreeSet<(usize, usize)>,
    pub ess: BTreeSet<usize>,
}

impl Dgm {
    pub fn swapped(&self) -> Dgm {
        Dgm {
            pairs: self.pairs.iter().map(|(a, b)| (*b, *a)).collect(),
            ess: self.ess.clone(),
        }
    }
    pub fn diff(&self, other: &Dgm) -> String {
        format!(
            "only in result: pairs {:?} essential {:?}; missing from result: pairs {:?} essential {:?}",
            self.pairs.difference(&other.pairs).take(5).collect::<Vec<_>>(),
            self.ess.difference(&other.ess).take(5).collect::<Vec<_>>(),
            other.pairs.difference(&self.pairs).take(5).collect::<Vec<_>>(),
            other.ess.difference(&self.ess).take(5).collect::<Vec<_>>()
        )
    }
}

pub fn dgm_ids<T: Hash + Eq + Clone>(d: &Diagram<T>, id: impl Fn(T) -> usize) -> Dgm {
    Dgm {
        pairs: d
            .pairings
            .iter()
            .map(|(a, b)| (id(a.clone()), id(b.clone())))
            .collect(),
        ess: d.essential.iter().map(|a| id(a.clone())).collect(),
    }
}

/// Verify triangularity and reducedness of decoded V columns in the order `order`.
/// Returns R and its pivots.
pub fn check_rdv(
    what: &str,
    dcols: &[SVec<usize>],
    vcols: &HashMap<usize, SVec<usize>>,
    order: &[usize],
    rank: &[usize],
    f: crate::field::Fld,
) -> HashMap<usize, (SVec<usize>, Option<usize>)> {
    let pos: HashMap<usize, usize> = order.iter().enumerate().map(|(p, j)| (*j, p)).collect();
    let mut seen: HashMap<usize, usize> = HashMap::new();
    let mut out = HashMap::new();
    for &j in order {
        let v = match vcols.get(&j) {
            Some(v) => v,
            None => viol(format!("{what}: V has no column for cell {j}")),
        };
        if !v.contains_key(&j) {
            viol(format!("{what}: V[{j}] has zero diagonal: {v:?}"));
        }
        for i in v.keys() {
            match pos.get(i) {
                Some(p) if *p <= pos[&j] => {}
                Some(p) => viol(format!(
                    "{what}: V is not upper triangular: V[{j}] (position {}) contains {i} (position {p})",
                    pos[&j]
                )),
                None => viol(format!(
                    "{what}: V[{j}] contains {i}, which is not among the columns reduced with it"
                )),
            }
        }
        let mut r = SVec::new();
        for (i, x) in v {
            axpy(&mut r, *x, &dcols[*i], f);
        }
        let low = r.keys().copied().max_by_key(|i| rank[*i]);
        if let Some(l) = low {
            if let Some(k) = seen.insert(l, j) {
                viol(format!(
                    "{what}: R = DV is not reduced: columns {k} and {j} both have pivot {l}"
                ));
            }
        }
        out.insert(j, (r, low));
    }
    out
}

pub fn standard_v<M>(
    m: &M,
    basis_ids: &[usize],
    id: impl Fn(M::ColT) -> usize,
    lab: impl Fn(usize) -> M::ColT,
) -> (
    StandardReductionMatrix<M::CoefficientField, M::ColT>,
    HashMap<usize, SVec<usize>>,
)
where
    M: SquareMatrix + HasRowFiltration + HasColBasis,
    M::CoefficientField: TField,
    M::ColT: Hash + 'static,
    M::RowT: 'static,
{
    let v = standard_algo(m);
    if v.columns.len() != basis_ids.len() {
        viol(format!(
            "V has {} columns for a basis of size {}",
            v.columns.len(),
            basis_ids.len()
        ));
    }
    let mut out = HashMap::new();
    for &j in basis_ids {
        if v.columns.get(&lab(j)).is_none() {
            viol(format!("V has no column for cell {j}"));
        }
        out.insert(j, dec_ids(v.column(lab(j)), &id));
    }
    (v, out)
}

pub fn standard_dgms<M>(m: &M, id: impl Fn(M::ColT) -> usize + Copy) -> Vec<(&'static str, Dgm)>
where
    M: SquareMatrix + HasRowFiltration + HasColBasis,
    M::CoefficientField: TField,
    M::ColT: Hash + 'static,
    M::RowT: 'static,
{
    let v = standard_algo(m);
    let a = dgm_ids(&read_off_diagram(m, &v, false), id);
    let b = dgm_ids(&read_off_diagram(m, &v, true), id);
    let (_, c) = standard_algo_with_diagram(m, false);
    let (_, d) = standard_algo_with_diagram(m, true);
    vec![
        ("read_off_diagram(forward)", a),
        ("read_off_diagram(reverse)", b),
        ("standard_algo_with_diagram(forward)", dgm_ids(&c, id)),
        ("standard_algo_with_diagram(reverse)", dgm_ids(&d, id)),
    ]
}

pub fn standard_dgm<M>(m: &M, reverse: bool, id: impl Fn(M::ColT) -> usize) -> Dgm
where
    M: SquareMatrix + HasRowFiltration + HasColBasis,
    M::CoefficientField: TField,
    M::ColT: Hash + 'static,
    M::RowT: 'static,
{
    dgm_ids(&standard_algo_with_diagram(m, reverse).1, id)
}

/// The same dimensions through one of several kinds of iterator, whose size hints say more or less.
pub fn handed(dims: impl IntoIterator<Item = usize>) -> Box<dyn Iterator<Item = usize>> {
    let dims: Vec<usize> = dims.into_iter().collect();
    let k = crate::driver::DIMS_STYLE.with(|s| s.replace(s.get() + 1));
    match k % 6 {
        0 => Box::new(dims.into_iter()),
        1 => {
            // nothing is known of its length
            let mut left = dims.into_iter();
            Box::new(std::iter::from_fn(move || left.next()))
        }
        2 => Box::new(dims.into_iter().filter(|d| *d < usize::MAX)),
        3 => {
            let k = dims.len() / 2;
            let b = dims[k..].to_vec();
            Box::new(dims.into_iter().take(k).chain(b))
        }
        4 => Box::new(dims.into_iter().map_while(Some).take_while(|_| true)),
        _ => Box::new(dims.into_iter().flat_map(|d| (d..).take(1))),
    }
}

pub fn clearing_dgm<M>(
    m: &M,
    dims: impl IntoIterator<Item = usize>,
    id: impl Fn(M::ColT) -> usize,
) -> Dgm
where
    M: SquareMatrix + HasRowFiltration + HasColBasis,
    M::BasisT: SplitByDimension,
    M::CoefficientField: TField,
    M::ColT: Hash + Debug + 'static,
    M::RowT: 'static,
    M::FiltrationT: Clone,
{
    dgm_ids(&ClearedReductionMatrix::build_with_diagram(m, handed(dims)).1, id)
}

/// Expected diagram of a dimension range for pairs (birth, death) with death column `col_of`.
pub fn range_dgm(
    pairs: &BTreeSet<(usize, usize)>,
    in_range: impl Fn(usize) -> bool,
    n: usize,
) -> Dgm {
    // pairs are given as (row, column)
    let p: BTreeSet<(usize, usize)> = pairs.iter().copied().filter(|(_, c)| in_range(*c)).collect();
    let births: BTreeSet<usize> = p.iter().map(|(b, _)| *b).collect();
    let deaths: BTreeSet<usize> = pairs.iter().map(|(_, d)| *d).collect();
    let ess = (0..n)
        .filter(|j| in_range(*j) && !deaths.contains(j) && !births.contains(j))
        .collect();
    Dgm { pairs: p, ess }
}
