//! Barcodes of the library's Rips matrices, by every route.
use crate::field::TField;
use crate::rips::{fbits, Bars};
use ordered_float::NotNan;
use phlite::matrices::{HasRowFiltration, MatrixOracle};
use phlite::reduction::{standard_algo_with_diagram, ClearedReductionMatrix};
use phlite_rips::cohomology::build_rips_coboundary_matrix;
use phlite_rips::homology::build_rips_boundary_matrix;
use phlite_rips::RipsIndex;
use std::cmp::Reverse;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Route {
    BoundaryStandard,
    BoundaryClearing,
    CoboundaryStandard,
    CoboundaryClearing,
}
pub const ROUTES: [Route; 4] = [
    Route::BoundaryStandard,
    Route::BoundaryClearing,
    Route::CoboundaryStandard,
    Route::CoboundaryClearing,
];

impl Route {
    /// Highest degree the route gives, if any.
    pub fn top(&self, max_dim: usize) -> Option<usize> {
        match self {
            Route::BoundaryStandard | Route::BoundaryClearing => max_dim.checked_sub(1),
            _ => Some(max_dim),
        }
    }
}

pub fn nn(d: &[Vec<f64>]) -> Vec<Vec<NotNan<f64>>> {
    d.iter()
        .map(|r| r.iter().map(|x| NotNan::new(*x).unwrap()).collect())
        .collect()
}

/// Bars of positive length and infinite bars in the degrees the route gives.
pub fn bars<CF: TField>(d: &[Vec<f64>], max_dim: usize, route: Route) -> Bars {
    let n = d.len();
    let mut out: Bars = vec![];
    let Some(top) = route.top(max_dim) else { return out };
    let mut put = |dim: usize, b: NotNan<f64>, e: Option<NotNan<f64>>| {
        if dim <= top && e != Some(b) {
            out.push((dim, fbits(b.into_inner()), e.map(|x| fbits(x.into_inner()))));
        }
    };
    match route {
        Route::BoundaryStandard | Route::BoundaryClearing => {
            let m = build_rips_boundary_matrix::<CF>(nn(d), max_dim);
            let dg = if route == Route::BoundaryStandard {
                standard_algo_with_diagram(&m, false).1
            } else {
                ClearedReductionMatrix::build_with_diagram(&m, crate::red::handed((0..=max_dim).rev())).1
            };
            let f = |r: &RipsIndex| m.filtration_value(*r);
            for (b, e) in &dg.pairings {
                put(b.dimension(n), f(b), Some(f(e)));
            }
            for b in &dg.essential {
                put(b.dimension(n), f(b), None);
            }
        }
        _ => {
            let m = build_rips_coboundary_matrix::<CF>(nn(d), max_dim).reverse();
            let dg = if route == Route::CoboundaryStandard {
                standard_algo_with_diagram(&m, true).1
            } else {
                ClearedReductionMatrix::build_with_diagram(&m, crate::red::handed(0..=max_dim)).1
            };
            let f = |r: &Reverse<RipsIndex>| m.filtration_value(*r).0;
            for (row, col) in &dg.pairings {
                // the column dies in cohomology where the class is born in homology
                put(col.0.dimension(n), f(col), Some(f(row)));
            }
            for b in &dg.essential {
                put(b.0.dimension(n), f(b), None);
            }
        }
    }
    out.sort();
    out
}

pub fn show(b: &Bars) -> String {
    b.iter()
        .map(|(d, x, y)| match y {
            Some(y) => format!("H{d}[{:?},{:?})", f64::from_bits(*x), f64::from_bits(*y)),
            None => format!("H{d}[{:?},inf)", f64::from_bits(*x)),
        })
        .collect::<Vec<_>>()
        .join(" ")
}
