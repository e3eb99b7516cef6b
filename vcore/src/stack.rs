//! Random stacks of wrappers around a user matrix; every intermediate matrix is observed.
use crate::field::TField;
use crate::gen::Size;
use crate::labels::{TFil, TLabel};
use crate::mon::{DimBasis, Style, SubBasis};
use crate::rng::Rng;
use crate::spec::*;
use phlite::matrices::adaptors::MatrixWithBasis;
use phlite::matrices::{ColBasis, HasColBasis, MatrixOracle};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

fn basis_of<C: El>(s_flat: &[C], s_subs: &[Vec<C>]) -> DimBasis<C> {
    DimBasis {
        subs: s_subs.iter().map(|s| SubBasis(s.clone())).collect(),
        flat: s_flat.to_vec(),
    }
}

/// Applies a random stack of at most `depth` wrappers; returns the path taken.
pub fn wrappers<CF: TField, C: TLabel, R: TLabel, F: TFil>(
    obs: &mut Obs,
    rng: &mut Rng,
    mut s: Spec<C, R, F>,
    depth: usize,
) -> String {
    let labels: Vec<C> = s.cols.keys().copied().collect();
    let rows: Vec<R> = s.fil.keys().copied().collect();
    let (a, b) = (Style::draw(rng), Style::draw(rng));
    let mut d = Dyn::<CF, C, R, F>::from_spec(&s, a, b, rng);
    let mut path = format!("user[{a:?},{b:?}]");
    obs.all(&d, &s, &path);
    // big matrices: compare a sample of the columns at every step
    let probe: Vec<C> = if labels.len() > 24 {
        rng.subset(labels.len(), 12).into_iter().map(|i| labels[i]).collect()
    } else {
        labels.clone()
    };
    let small = |s: &Spec<C, R, F>| if probe.len() < s.cols.len() { s.restrict(|c| probe.contains(c)) } else { s.clone() };
    for _ in 0..depth {
        let nd = s.subs.len();
        let op = rng.below(19);
        let q = small(&s);
        macro_rules! step {
            ($name:expr, $m:expr) => {{
                path.push_str($name);
                let m = $m;
                obs.all(&m, &small(&s), &path);
                obs.all(&&m, &small(&s), &format!("&({path})"));
                d = Dyn::erase(m, nd);
            }};
        }
        match op {
            0 => {
                let fil = random_fil::<R, F>(rng, &rows);
                s = s.with_fil(fil.clone());
                step!(".with_filtration(new)", d.with_filtration(move |r: R| fil[&r]))
            }
            1 => {
                let fil = random_fil::<R, F>(rng, &rows);
                let m = d.with_filtration(move |r: R| fil[&r]);
                step!(".with_filtration(f).discard_filtration()", m.discard_filtration())
            }
            2 => {
                let m = d.with_trivial_filtration();
                obs.all(&m, &q.trivial(), &format!("{path}.with_trivial_filtration()"));
                let fil = random_fil::<R, F>(rng, &rows);
                s = s.with_fil(fil.clone());
                step!(".with_trivial_filtration().with_filtration(new)", m.with_filtration(move |r: R| fil[&r]))
            }
            3 => step!(".cache_cols()", d.cache_cols()),
            4 => {
                let m = d.clone().cache_cols();
                // partially filled before it is observed, and cloned in that state
                for c in &probe {
                    if rng.chance(1, 2) {
                        let _ = m.column(*c).take(rng.below(3)).count();
                    }
                }
                let n = m.clone();
                obs.all(&n, &q, &format!("{path}.cache_cols().clone()"));
                step!(".cache_cols()[touched]", m)
            }
            5 | 6 => {
                path.push_str(".consolidate()");
                let m = d.consolidate();
                obs.merged_annotated(&m, &q.cols, &path);
                obs.merged_annotated(&(&m).with_trivial_filtration(), &q.cols, &path);
                obs.merged_annotated(&(&m).cache_cols(), &q.cols, &path);
                obs.merged_annotated(&(&m).reverse(), &q.rev().cols, &path);
                step!("", m)
            }
            7 => {
                let (flat, subs) = random_basis(rng, &labels, labels.len());
                s = s.with_bases(flat, subs);
                let nb = basis_of(&s.flat, &s.subs);
                let nd = s.subs.len();
                path.push_str(".with_basis(new)");
                let m = d.with_basis(nb);
                obs.all(&m, &small(&s), &path);
                d = Dyn::erase(m, nd);
            }
            8 => {
                let (flat, subs) = random_basis(rng, &labels, labels.len());
                s = s.with_bases(flat, subs);
                let nb = basis_of(&s.flat, &s.subs);
                let nd = s.subs.len();
                path.push_str(".MatrixWithBasis::new(new)");
                let m = MatrixWithBasis::new(d, nb);
                obs.all(&m, &small(&s), &path);
                d = Dyn::erase(m, nd);
            }
            9 => {
                // plain vector basis, then the old basis again
                let (flat, _) = random_basis(rng, &labels, labels.len());
                let m = d.with_basis(flat.clone());
                obs.based(&m, &q.with_bases(flat, vec![]), &format!("{path}.with_basis(vec)"));
                let old = basis_of(&s.flat, &s.subs);
                step!(".with_basis(vec).with_basis(old)", m.with_basis(old))
            }
            10 | 11 | 12 => {
                let fil = s.fil.clone();
                let old = basis_of(&s.flat, &s.subs);
                let name = ["Box", "Rc", "Arc"][op - 10];
                path = format!("{name}({path})");
                match op {
                    10 => {
                        let m = Box::new(d);
                        obs.matrix(&m, &q.cols, &path);
                        step!(".with_filtration(f).with_basis(b)", m.with_filtration(move |r: R| fil[&r]).with_basis(old))
                    }
                    11 => {
                        let m = Rc::new(d);
                        obs.matrix(&m, &q.cols, &path);
                        obs.matrix(&m.clone(), &q.cols, &path);
                        step!(".with_basis(b).with_filtration(f)", m.with_basis(old).with_filtration(move |r: R| fil[&r]))
                    }
                    _ => {
                        #[allow(clippy::arc_with_non_send_sync)]
                        let m = Arc::new(d);
                        obs.matrix(&m, &q.cols, &path);
                        step!(".with_filtration(f).with_basis(b)", m.with_filtration(move |r: R| fil[&r]).with_basis(old))
                    }
                }
            }
            13 => step!(".reverse().unreverse()", d.reverse().unreverse()),
            14 => step!(".reverse() MatrixOracle::unreverse", MatrixOracle::unreverse(d.reverse())),
            15 => {
                let m = d.clone().using_col_basis_index();
                let cols: BTreeMap<usize, _> = s
                    .flat
                    .iter()
                    .enumerate()
                    .filter(|(_, c)| probe.contains(c))
                    .map(|(i, c)| (i, s.cols[c].clone()))
                    .collect();
                let p = format!("{path}.using_col_basis_index()");
                obs.filtered(&m, &cols, &q.fil, &p);
                obs.filtered(&&m, &cols, &q.fil, &p);
                let m = (&d).consolidate().cache_cols().using_col_basis_index();
                obs.filtered(&m, &cols, &q.fil, &p);
                obs.merged_annotated(&m, &cols, &p);
                // with a standard basis on top
                let k = s.flat.len();
                let std = phlite::matrices::implementors::StandardBasis::new(k);
                let m = m.with_basis(std);
                obs.based(
                    &m,
                    &Spec { cols, fil: q.fil.clone(), flat: (0..k).collect(), subs: vec![] },
                    &format!("{p}.with_basis(standard)"),
                );
                path.push_str("[indexed]");
            }
            16 => {
                let k = rng.below(nd);
                let p = format!("{path}.sub_matrix_in_dimension({k})");
                let sub = q.with_bases(s.subs[k].clone(), vec![]);
                let m = d.clone().sub_matrix_in_dimension(k);
                obs.based(&m, &sub, &p);
                obs.based(&&m, &sub, &p);
                obs.based(&(&m).cache_cols(), &sub, &format!("{p}.cache_cols()"));
                obs.based(&(&m).consolidate(), &sub, &format!("{p}.consolidate()"));
                obs.based(&(&m).with_trivial_filtration(), &sub.trivial(), &format!("{p}.with_trivial_filtration()"));
                let cols: BTreeMap<usize, _> = s.subs[k]
                    .iter()
                    .enumerate()
                    .filter(|(_, c)| probe.contains(c))
                    .map(|(i, c)| (i, s.cols[c].clone()))
                    .collect();
                obs.filtered(&(&m).using_col_basis_index(), &cols, &q.fil, &format!("{p}.using_col_basis_index()"));
                // lookup of positions in the sub-basis
                if !obs.agreement_only {
                    let look = m.basis().construct_reverse_lookup();
                    let want: std::collections::HashMap<C, usize> =
                        s.subs[k].iter().enumerate().map(|(i, c)| (*c, i)).collect();
                    crate::ensure_eq!(look, want, "{p}: reverse lookup");
                }
                let old = basis_of(&s.flat, &s.subs);
                step!(".sub_matrix_in_dimension(k).with_basis(old)", m.with_basis(old))
            }
            17 => {
                // views of a borrowed matrix, without erasing in between
                let r = &d;
                let fil = random_fil::<R, F>(rng, &rows);
                let g = |x: R| fil[&x];
                let qf = q.with_fil(fil.clone());
                obs.all(&r.cache_cols().consolidate(), &q, &format!("(&{path}).cache_cols().consolidate()"));
                obs.all(&r.consolidate().with_filtration(g), &qf, &format!("(&{path}).consolidate().with_filtration(g)"));
                obs.all(&r.with_filtration(g).cache_cols(), &qf, &format!("(&{path}).with_filtration(g).cache_cols()"));
                obs.all(&r.with_filtration(g).consolidate(), &qf, &format!("(&{path}).with_filtration(g).consolidate()"));
                obs.all(&r.with_filtration(g).reverse().unreverse(), &qf, &format!("(&{path}).with_filtration(g).reverse().unreverse()"));
                let inner = r.with_filtration(g).cache_cols();
                obs.all(&inner.discard(), &q, "discard");
            }
            _ => {
                let (flat, subs) = random_basis(rng, &labels, labels.len());
                let nb = basis_of(&flat, &subs);
                let qb = q.with_bases(flat, subs);
                let r = &d;
                obs.all(&r.with_basis(&nb), &qb, &format!("(&{path}).with_basis(&b)"));
                obs.all(&r.with_basis(&nb).cache_cols(), &qb, &format!("(&{path}).with_basis(&b).cache_cols()"));
                obs.all(&r.with_basis(&nb).consolidate(), &qb, &format!("(&{path}).with_basis(&b).consolidate()"));
                obs.all(&r.with_basis(&nb).with_trivial_filtration(), &qb.trivial(), &format!("(&{path}).with_basis(&b).with_trivial_filtration()"));
                obs.all(&r.with_trivial_filtration().with_basis(&nb), &qb.trivial(), &format!("(&{path}).with_trivial_filtration().with_basis(&b)"));
                obs.all(&RcBased(d.clone()).cache_cols(), &q, &format!("shared-basis({path}).cache_cols()"));
                obs.all(&FreshBased(d.clone()).consolidate(), &q, &format!("fresh-basis({path}).consolidate()"));
                obs.all(&FreshBased(d.clone()), &q, &format!("fresh-basis({path})"));
            }
        }
        obs.ctx.add("wrappers_applied", 1);
    }
    // everything once more at the end, after all intermediate reads
    obs.all(&d, &s, &path);
    path
}

trait Discard {
    type M;
    fn discard(self) -> Self::M;
}
impl<M, FT, F> Discard for phlite::matrices::adaptors::WithCachedCols<phlite::matrices::adaptors::WithFuncFiltration<M, FT, F>>
where
    M: MatrixOracle,
    FT: phlite::matrices::FiltrationValue,
    F: Fn(M::RowT) -> FT,
{
    type M = M;
    fn discard(self) -> M {
        self.oracle.discard_filtration()
    }
}

pub fn size(rng: &mut Rng) -> Size {
    if cfg!(miri) {
        return Size::Tiny;
    }
    match rng.below(100) {
        0..=39 => Size::Tiny,
        40..=94 => Size::Small,
        95..=98 => Size::Medium,
        _ => Size::Large,
    }
}
