//! Reference field arithmetic (integers mod p in i128, exact fractions in i128) and the
//! translation between reference scalars and the library's coefficient types.
use crate::driver::{skip, viol};
use crate::rng::Rng;
use phlite::fields::{Invertible, NonZeroCoefficient, Q, Z11, Z13, Z2, Z3, Z5, Z7};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Debug;
use std::sync::OnceLock;

/// A reference scalar n/d in lowest terms, d > 0; d = 1 and 0 <= n < p over a prime field.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Sc {
    pub n: i128,
    pub d: i128,
}
impl Debug for Sc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.d == 1 {
            write!(f, "{}", self.n)
        } else {
            write!(f, "{}/{}", self.n, self.d)
        }
    }
}

/// p = 0 is the field of rational numbers, p = 4 the field with four elements 0, 1, w = 2 and w + 1 = 3.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fld {
    pub p: u32,
}

fn gcd(mut a: i128, mut b: i128) -> i128 {
    a = a.abs();
    b = b.abs();
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}

fn ck(x: Option<i128>) -> i128 {
    match x {
        Some(x) => x,
        None => skip("reference rational overflow"),
    }
}

impl Fld {
    pub const ZERO: Sc = Sc { n: 0, d: 1 };
    pub const ONE: Sc = Sc { n: 1, d: 1 };
    pub fn int(&self, x: i128) -> Sc {
        if self.p == 4 {
            Sc { n: x & 1, d: 1 }
        } else if self.p > 0 {
            Sc {
                n: x.rem_euclid(self.p as i128),
                d: 1,
            }
        } else {
            Sc { n: x, d: 1 }
        }
    }
    pub fn frac(&self, n: i128, d: i128) -> Sc {
        if self.p > 0 {
            self.mul(self.int(n), self.inv(self.int(d)))
        } else {
            let g = gcd(n, d) * d.signum();
            Sc { n: n / g, d: d / g }
        }
    }
    pub fn is_zero(&self, a: Sc) -> bool {
        a.n == 0
    }
    pub fn add(&self, a: Sc, b: Sc) -> Sc {
        if self.p == 4 {
            Sc { n: a.n ^ b.n, d: 1 }
        } else if self.p > 0 {
            self.int(a.n + b.n)
        } else {
            let n = ck(ck(a.n.checked_mul(b.d)).checked_add(ck(b.n.checked_mul(a.d))));
            let d = ck(a.d.checked_mul(b.d));
            self.frac(n, d)
        }
    }
    pub fn neg(&self, a: Sc) -> Sc {
        self.int_or_neg(a)
    }
    fn int_or_neg(&self, a: Sc) -> Sc {
        if self.p == 4 {
            a
        } else if self.p > 0 {
            self.int(-a.n)
        } else {
            Sc { n: -a.n, d: a.d }
        }
    }
    pub fn sub(&self, a: Sc, b: Sc) -> Sc {
        self.add(a, self.neg(b))
    }
    pub fn mul(&self, a: Sc, b: Sc) -> Sc {
        if self.p == 4 {
            // the powers of w are 1, w, w + 1
            const LOG: [i128; 4] = [9, 0, 1, 2];
            const EXP: [i128; 3] = [1, 2, 3];
            let n = if a.n == 0 || b.n == 0 { 0 } else { EXP[(LOG[a.n as usize] + LOG[b.n as usize]) as usize % 3] };
            Sc { n, d: 1 }
        } else if self.p > 0 {
            self.int(a.n * b.n)
        } else {
            let n = ck(a.n.checked_mul(b.n));
            let d = ck(a.d.checked_mul(b.d));
            self.frac(n, d)
        }
    }
    pub fn inv(&self, a: Sc) -> Sc {
        assert!(a.n != 0);
        if self.p == 4 {
            self.mul(a, a)
        } else if self.p > 0 {
            // Fermat
            let (mut r, mut b, mut e) = (1i128, a.n, self.p as i128 - 2);
            let p = self.p as i128;
            while e > 0 {
                if e & 1 == 1 {
                    r = r * b % p;
                }
                b = b * b % p;
                e >>= 1;
            }
            Sc { n: r % p, d: 1 }
        } else {
            self.frac(a.d, a.n)
        }
    }
    /// A small non-zero scalar.
    pub fn unit(&self, rng: &mut Rng) -> Sc {
        if self.p > 0 {
            Sc { n: 1 + rng.below(self.p as usize - 1) as i128, d: 1 }
        } else {
            match rng.below(8) {
                0..=2 => self.int(1),
                3 | 4 => self.int(-1),
                5 => self.int(2),
                6 => self.frac(1, 2),
                _ => self.frac(-1, 2),
            }
        }
    }
    pub fn sign(&self, rng: &mut Rng) -> Sc {
        if rng.chance(1, 2) {
            self.int(1)
        } else {
            self.int(-1)
        }
    }
}

/// A coefficient type of the library, with translation from and to reference scalars.
pub trait TField: Invertible + Debug + Send + Sync + 'static {
    const P: u32;
    const NAME: &'static str;
    /// The library element for a non-zero reference scalar, built from `one()` with library operations.
    fn enc(s: Sc) -> Self;
    /// The reference scalar a library element denotes.
    fn dec(self) -> Sc;
    fn fld() -> Fld {
        Fld { p: Self::P }
    }
}

/// A user's field with four elements: characteristic two, but not every element is its own inverse.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Gf4(u8);
impl std::ops::Add for Gf4 {
    type Output = Option<Gf4>;
    fn add(self, o: Gf4) -> Option<Gf4> {
        (self != o).then_some(Gf4(self.0 ^ o.0))
    }
}
impl std::ops::Add<Option<Gf4>> for Gf4 {
    type Output = Option<Gf4>;
    fn add(self, o: Option<Gf4>) -> Option<Gf4> {
        match o {
            Some(o) => self + o,
            None => Some(self),
        }
    }
}
impl std::ops::Mul for Gf4 {
    type Output = Gf4;
    fn mul(self, o: Gf4) -> Gf4 {
        Gf4((self.0 + o.0 - 2) % 3 + 1)
    }
}
impl NonZeroCoefficient for Gf4 {
    fn one() -> Self {
        Gf4(1)
    }
    fn additive_inverse(self) -> Self {
        self
    }
}
impl Invertible for Gf4 {
    fn mult_inverse(self) -> Self {
        self * self
    }
}
impl TField for Gf4 {
    const P: u32 = 4;
    const NAME: &'static str = "GF(4)";
    fn enc(s: Sc) -> Self {
        assert!(s.n > 0 && s.n < 4 && s.d == 1, "enc({s:?}) in GF(4)");
        Gf4(s.n as u8)
    }
    fn dec(self) -> Sc {
        Sc { n: self.0 as i128, d: 1 }
    }
}

/// A user's large prime field.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Big(u32);
const BIG: u32 = 2147483647;
impl std::ops::Add for Big {
    type Output = Option<Big>;
    fn add(self, o: Big) -> Option<Big> {
        let s = ((self.0 as u64 + o.0 as u64) % BIG as u64) as u32;
        (s != 0).then_some(Big(s))
    }
}
impl std::ops::Add<Option<Big>> for Big {
    type Output = Option<Big>;
    fn add(self, o: Option<Big>) -> Option<Big> {
        match o {
            Some(o) => self + o,
            None => Some(self),
        }
    }
}
impl std::ops::Mul for Big {
    type Output = Big;
    fn mul(self, o: Big) -> Big {
        Big((self.0 as u64 * o.0 as u64 % BIG as u64) as u32)
    }
}
impl NonZeroCoefficient for Big {
    fn one() -> Self {
        Big(1)
    }
    fn additive_inverse(self) -> Self {
        Big(BIG - self.0)
    }
}
impl Invertible for Big {
    fn mult_inverse(self) -> Self {
        let (mut r, mut b, mut e) = (Big(1), self, BIG - 2);
        while e > 0 {
            if e & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            e >>= 1;
        }
        r
    }
}
impl TField for Big {
    const P: u32 = BIG;
    const NAME: &'static str = "Z2147483647";
    fn enc(s: Sc) -> Self {
        assert!(s.n > 0 && s.n < BIG as i128 && s.d == 1, "enc({s:?})");
        Big(s.n as u32)
    }
    fn dec(self) -> Sc {
        Sc { n: self.0 as i128, d: 1 }
    }
}

fn build_table<F: NonZeroCoefficient>(p: u32) -> Vec<F> {
    let one = F::one();
    let mut t = vec![one];
    for k in 2..p {
        match *t.last().unwrap() + one {
            Some(x) => t.push(x),
            None => viol(format!("1 added {k} times is absent modulo {p}")),
        }
    }
    t
}

macro_rules! tfield {
    ($t:ty, $p:expr, $n:expr) => {
        impl TField for $t {
            const P: u32 = $p;
            const NAME: &'static str = $n;
            fn enc(s: Sc) -> Self {
                static T: OnceLock<Vec<$t>> = OnceLock::new();
                let t = T.get_or_init(|| build_table::<$t>($p));
                assert!(s.n > 0 && s.n < $p && s.d == 1, "enc({s:?}) mod {}", $p);
                t[s.n as usize - 1]
            }
            fn dec(self) -> Sc {
                static T: OnceLock<Vec<$t>> = OnceLock::new();
                let t = T.get_or_init(|| build_table::<$t>($p));
                match t.iter().position(|x| *x == self) {
                    Some(i) => Sc {
                        n: i as i128 + 1,
                        d: 1,
                    },
                    None => viol(format!(
                        "coefficient {:?} equals no non-zero element of {}",
                        self, $n
                    )),
                }
            }
        }
    };
}
tfield!(Z2, 2, "Z2");
tfield!(Z3, 3, "Z3");
tfield!(Z5, 5, "Z5");
tfield!(Z7, 7, "Z7");
tfield!(Z11, 11, "Z11");
tfield!(Z13, 13, "Z13");

/// Library rational for an integer, by double-and-add from one().
pub fn q_int(n: i128) -> Q {
    let mut acc: Option<Q> = None;
    let m = n.unsigned_abs();
    for i in (0..128 - m.leading_zeros()).rev() {
        acc = match acc {
            Some(a) => a + a,
            None => None,
        };
        if m >> i & 1 == 1 {
            acc = Q::one() + acc;
        }
    }
    let a = acc.unwrap_or_else(|| viol(format!("sum of {m} ones is absent in Q")));
    if n < 0 {
        a.additive_inverse()
    } else {
        a
    }
}

thread_local! {
    static QENC: RefCell<HashMap<Sc, Q>> = RefCell::new(HashMap::new());
}

impl TField for Q {
    const P: u32 = 0;
    const NAME: &'static str = "Q";
    fn enc(s: Sc) -> Self {
        if let Some(q) = QENC.with(|m| m.borrow().get(&s).copied()) {
            return q;
        }
        let q = if s.d == 1 {
            q_int(s.n)
        } else {
            q_int(s.n) * q_int(s.d).mult_inverse()
        };
        QENC.with(|m| {
            let mut m = m.borrow_mut();
            if m.len() < 4096 {
                m.insert(s, q);
            }
        });
        q
    }
    fn dec(self) -> Sc {
        // The fields are private; the derived Debug output shows numerator and denominator.
        let s = format!("{self:?}");
        let mut nums: Vec<i128> = vec![];
        let mut cur = String::new();
        for c in s.chars().chain(std::iter::once(' ')) {
            if c.is_ascii_digit() || (c == '-' && cur.is_empty()) {
                cur.push(c);
            } else if !cur.is_empty() {
                if let Ok(x) = cur.parse() {
                    nums.push(x);
                }
                cur.clear();
            }
        }
        match nums[..] {
            [n] if n != 0 => Sc { n, d: 1 },
            [n, d] if n != 0 && d != 0 => Fld { p: 0 }.frac(n, d),
            _ => viol(format!("rational coefficient {s} is zero or unreadable")),
        }
    }
}
