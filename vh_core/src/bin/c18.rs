//! C18: Rips barcodes are the true persistent homology of the distance matrix.
use phlite::fields::*;
use vcore::field::TField;
use vcore::rips;
use vcore::ripslib::*;
use vcore::{ensure, Ctx, Rng};

fn case<CF: TField>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let (n, md) = match rng.below(100) {
        0..=59 => (rng.range(0, 7), rng.below(4)),
        60..=84 => (rng.range(6, 10), rng.below(4)),
        85..=93 => (rng.range(8, 16), rng.below(2)),
        94..=97 => (rng.range(10, 24), rng.below(2)),
        98 => (rng.range(20, 40), 0),
        _ => (rng.range(2, 5), rng.range(3, 7)),
    };
    let dist = rips::matrix(rng, n);
    ctx.sig(&format!("{}{md}{dist:?}", CF::NAME));
    ctx.describe(|| format!("{} max_dim={md} {dist:?}", CF::NAME));
    let full = rips::barcode(&dist, md, CF::P);
    for r in ROUTES {
        let Some(top) = r.top(md) else { continue };
        let want: rips::Bars = full.iter().filter(|b| b.0 <= top).copied().collect();
        let got = bars::<CF>(&dist, md, r);
        ensure!(got == want, "{r:?} up to dimension {md}: bars {}; true barcode {}", show(&got), show(&want));
        ctx.add("barcodes_compared", 1);
        ctx.add("bars_compared", want.len() as u64);
    }
    ctx.add("higher_degree_bars", full.iter().filter(|b| b.0 > 0).count() as u64);
    ctx.add("infinite_bars", full.iter().filter(|b| b.2.is_none()).count() as u64);
    ctx.max("most_points", n as u64);
    ctx.nontrivial = full.iter().any(|b| b.2.is_some());
}

/// The projective plane (as distances 1 inside, 2 outside the triangulation's 1-skeleton, which is
/// complete): homology that depends on the field, subdivided so that it is a flag complex.
fn torsion<CF: TField>(ctx: &mut Ctx, rng: &mut Rng) {
    // barycentric subdivision of the 6-vertex projective plane: 6 + 15 + 10 = 31 vertices
    let tri: [[usize; 3]; 10] = [
        [0, 1, 4], [0, 1, 5], [0, 2, 3], [0, 2, 5], [0, 3, 4],
        [1, 2, 3], [1, 2, 4], [1, 3, 5], [2, 4, 5], [3, 4, 5],
    ];
    let mut faces: Vec<Vec<usize>> = (0..6).map(|v| vec![v]).collect();
    for a in 0..6 {
        for b in a + 1..6 {
            faces.push(vec![a, b]);
        }
    }
    faces.extend(tri.iter().map(|t| t.to_vec()));
    rng.shuffle(&mut faces);
    let n = faces.len();
    let sub = |a: &Vec<usize>, b: &Vec<usize>| a.iter().all(|x| b.contains(x));
    let mut d = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..i {
            let x = if sub(&faces[i], &faces[j]) || sub(&faces[j], &faces[i]) { 1.0 } else { 2.0 };
            d[i][j] = x;
            d[j][i] = x;
        }
    }
    // at scale 1: H1 = F, H2 = F over Z2; both vanish over other fields; at scale 2 everything is filled
    let want: rips::Bars = {
        let mut v = vec![(0, rips::fbits(0.0), None)];
        v.extend((0..n - 1).map(|_| (0, rips::fbits(0.0), Some(rips::fbits(1.0)))));
        if CF::P == 2 {
            v.push((1, rips::fbits(1.0), Some(rips::fbits(2.0))));
        }
        v.sort();
        v
    };
    let r = *rng.pick(&[Route::CoboundaryClearing, Route::CoboundaryStandard]);
    let got = bars::<CF>(&d, 1, r);
    ensure!(got == want, "{r:?}: projective plane over {}: bars {}; true barcode {}", CF::NAME, show(&got), show(&want));
    ctx.add("torsion_complexes", 1);
    ctx.sig(&format!("{d:?}{r:?}{}", CF::NAME));
    ctx.nontrivial = true;
}

fn main() {
    vcore::driver::run("C18", vcore::gen::self_check, |ctx, rng, idx| match idx % 120 {
        119 => torsion::<Z3>(ctx, rng),
        118 => torsion::<Z2>(ctx, rng),
        117 => torsion::<Z11>(ctx, rng),
        k => match k % 6 {
            0 => case::<Z2>(ctx, rng),
            1 => case::<Z3>(ctx, rng),
            2 => case::<Z5>(ctx, rng),
            3 => case::<Z13>(ctx, rng),
            4 => case::<Z7>(ctx, rng),
            _ => case::<Q>(ctx, rng),
        },
    });
}
