//! Row/column label types and filtration types used by the workloads, with tables of strictly
//! increasing values that include the extremes of each type.
use crate::rng::Rng;
use ordered_float::NotNan;
use phlite::matrices::{BasisElement, FiltrationValue};
use std::cmp::{Ordering, Reverse};
use std::fmt::Debug;
use std::hash::Hash;

/// A user-defined label: ordered by (b, descending a), unlike its derived layout, and with few hash values.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Lab {
    pub a: u16,
    pub b: i8,
}
impl Hash for Lab {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        (self.a & 255).hash(h)
    }
}
impl Ord for Lab {
    fn cmp(&self, o: &Self) -> Ordering {
        self.b.cmp(&o.b).then(o.a.cmp(&self.a))
    }
}
impl PartialOrd for Lab {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl BasisElement for Lab {}

/// A user-defined label that is not Copy-cheap in spirit: ordered by string contents.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Wide(pub [u32; 4]);
impl BasisElement for Wide {}

pub trait TLabel: BasisElement + Hash + Debug + Copy + Send + Sync + 'static {
    const NAME: &'static str;
    /// n strictly increasing labels
    fn table(n: usize, rng: &mut Rng) -> Vec<Self>;
}

pub trait TFil: FiltrationValue + Debug + Copy + Send + Sync + 'static {
    const NAME: &'static str;
    /// The type has a single value.
    const TRIVIAL: bool = false;
    /// k strictly increasing filtration values
    fn table(k: usize, rng: &mut Rng) -> Vec<Self>;
}

fn spaced_u64(n: usize, rng: &mut Rng, lo: u64, hi: u64) -> Vec<u64> {
    // strictly increasing in lo..=hi
    let mut v = std::collections::BTreeSet::new();
    if n >= 1 && rng.chance(1, 2) {
        v.insert(lo);
    }
    if n >= 2 && rng.chance(1, 2) {
        v.insert(hi);
    }
    while v.len() < n {
        let span = hi.wrapping_sub(lo);
        let x = rng.u64();
        v.insert(if span == u64::MAX { x } else { lo + x % (span + 1) });
    }
    v.into_iter().collect()
}

impl TLabel for usize {
    const NAME: &'static str = "usize";
    fn table(n: usize, rng: &mut Rng) -> Vec<Self> {
        if rng.chance(1, 2) {
            (0..n).collect()
        } else {
            spaced_u64(n, rng, 0, u64::MAX)
                .into_iter()
                .map(|x| x as usize)
                .collect()
        }
    }
}
impl TLabel for isize {
    const NAME: &'static str = "isize";
    fn table(n: usize, rng: &mut Rng) -> Vec<Self> {
        if rng.chance(1, 2) {
            let off = rng.below(n + 1) as isize;
            (0..n).map(|x| x as isize - off).collect()
        } else {
            spaced_u64(n, rng, 0, u64::MAX)
                .into_iter()
                .map(|x| (x ^ (1 << 63)) as isize)
                .collect()
        }
    }
}
impl TLabel for Reverse<usize> {
    const NAME: &'static str = "Reverse<usize>";
    fn table(n: usize, rng: &mut Rng) -> Vec<Self> {
        <usize as TLabel>::table(n, rng)
            .into_iter()
            .rev()
            .map(Reverse)
            .collect()
    }
}
impl TLabel for Lab {
    const NAME: &'static str = "Lab";
    fn table(n: usize, rng: &mut Rng) -> Vec<Self> {
        let mut v: Vec<Lab> = spaced_u64(n, rng, 0, (1 << 24) - 1)
            .into_iter()
            .map(|x| Lab {
                a: (x & 0xffff) as u16,
                b: ((x >> 16) & 0xff) as u8 as i8,
            })
            .collect();
        v.sort();
        v
    }
}
impl TLabel for Wide {
    const NAME: &'static str = "Wide";
    fn table(n: usize, rng: &mut Rng) -> Vec<Self> {
        spaced_u64(n, rng, 0, u64::MAX)
            .into_iter()
            .map(|x| Wide([(x >> 48) as u32, (x >> 32) as u32 & 0xffff, x as u32, 7]))
            .collect()
    }
}

impl TFil for usize {
    const NAME: &'static str = "usize";
    fn table(k: usize, rng: &mut Rng) -> Vec<Self> {
        <usize as TLabel>::table(k, rng)
    }
}
impl TFil for isize {
    const NAME: &'static str = "isize";
    fn table(k: usize, rng: &mut Rng) -> Vec<Self> {
        <isize as TLabel>::table(k, rng)
    }
}
fn floats(k: usize, rng: &mut Rng, max: f64) -> Vec<f64> {
    let mut v: Vec<f64> = vec![];
    let specials = [
        f64::NEG_INFINITY,
        f64::INFINITY,
        -max,
        max,
        0.0,
        -1.0,
        1.0,
        0.1 + 0.2,
        0.3,
    ];
    let wild = rng.chance(1, 2);
    let mut seen = std::collections::HashSet::new();
    while v.len() < k {
        let x = if wild && rng.chance(1, 4) {
            *rng.pick(&specials)
        } else if wild {
            ((rng.f01() - 0.5) * 2f64.powi(rng.irange(-20, 20) as i32)) as f32 as f64
        } else {
            v.len() as f64 * 0.5
        };
        // -0.0 and 0.0 are equal filtration values
        if seen.insert((x + 0.0).to_bits()) {
            v.push(x);
        }
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}
impl TFil for NotNan<f64> {
    const NAME: &'static str = "NotNan<f64>";
    fn table(k: usize, rng: &mut Rng) -> Vec<Self> {
        floats(k, rng, f64::MAX)
            .into_iter()
            .map(|x| NotNan::new(x).unwrap())
            .collect()
    }
}
impl TFil for NotNan<f32> {
    const NAME: &'static str = "NotNan<f32>";
    fn table(k: usize, rng: &mut Rng) -> Vec<Self> {
        let mut v: Vec<f32> = floats(k, rng, f32::MAX as f64)
            .into_iter()
            .map(|x| x as f32)
            .collect();
        v.dedup();
        if v.len() < k || v.windows(2).any(|w| w[0] >= w[1]) {
            v = (0..k).map(|i| i as f32 * 0.25).collect();
        }
        v.into_iter().map(|x| NotNan::new(x).unwrap()).collect()
    }
}
impl TFil for () {
    const NAME: &'static str = "()";
    const TRIVIAL: bool = true;
    fn table(k: usize, _rng: &mut Rng) -> Vec<Self> {
        assert!(k <= 1);
        vec![(); k]
    }
}
impl TFil for Reverse<NotNan<f64>> {
    const NAME: &'static str = "Reverse<NotNan<f64>>";
    fn table(k: usize, rng: &mut Rng) -> Vec<Self> {
        <NotNan<f64> as TFil>::table(k, rng)
            .into_iter()
            .rev()
            .map(Reverse)
            .collect()
    }
}

/// Run `$f::<CF, L, F>($args)` for combination number `$k` (any usize).
#[macro_export]
macro_rules! dispatch {
    ($k:expr, $f:ident ( $($a:expr),* )) => {{
        use ordered_float::NotNan;
        use phlite::fields::*;
        use std::cmp::Reverse;
        use $crate::labels::*;
        match $k % $crate::labels::N_COMBOS {
            0 => $f::<Z2, usize, NotNan<f64>>($($a),*),
            1 => $f::<Z3, isize, usize>($($a),*),
            2 => $f::<Z5, Reverse<usize>, NotNan<f64>>($($a),*),
            3 => $f::<Z7, Lab, isize>($($a),*),
            4 => $f::<Z11, usize, ()>($($a),*),
            5 => $f::<Z13, isize, NotNan<f32>>($($a),*),
            6 => $f::<Q, usize, usize>($($a),*),
            7 => $f::<Z3, Wide, Reverse<NotNan<f64>>>($($a),*),
            8 => $f::<Z2, Lab, ()>($($a),*),
            9 => $f::<$crate::field::Gf4, usize, NotNan<f64>>($($a),*),
            10 => $f::<$crate::field::Big, Lab, isize>($($a),*),
            _ => $f::<Z13, usize, NotNan<f64>>($($a),*),
        }
    }};
}
pub const N_COMBOS: usize = 12;

/// A smaller set of combinations, for properties whose harness is expensive to compile.
#[macro_export]
macro_rules! dispatch_few {
    ($k:expr, $f:ident ( $($a:expr),* )) => {{
        use ordered_float::NotNan;
        use phlite::fields::*;
        use $crate::labels::*;
        match $k % $crate::labels::N_COMBOS_FEW {
            0 => $f::<Z2, usize, NotNan<f64>>($($a),*),
            1 => $f::<Z3, isize, usize>($($a),*),
            2 => $f::<Z7, Lab, isize>($($a),*),
            3 => $f::<Z13, usize, ()>($($a),*),
            4 => $f::<$crate::field::Gf4, usize, NotNan<f64>>($($a),*),
            _ => $f::<Q, isize, NotNan<f64>>($($a),*),
        }
    }};
}
pub const N_COMBOS_FEW: usize = 6;
