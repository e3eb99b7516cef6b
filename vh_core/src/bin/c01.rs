//! C01: coefficient types are exact fields whose zero is only ever "absent".
use phlite::fields::{Invertible, NonZeroCoefficient, Q, Z11, Z13, Z2, Z3, Z5, Z7};
use phlite::impl_add_options;
use std::ops::{Add, Mul};
use vcore::driver::viol;
use vcore::field::{Fld, Sc, TField};
use vcore::{ensure, ensure_eq, Ctx, Rng};

/// A user-defined coefficient type, using the library's macro for absent summands.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct F17(u8);
impl Add for F17 {
    type Output = Option<F17>;
    fn add(self, o: F17) -> Option<F17> {
        let s = (self.0 + o.0) % 17;
        (s != 0).then_some(F17(s))
    }
}
impl Mul for F17 {
    type Output = F17;
    fn mul(self, o: F17) -> F17 {
        F17((self.0 as u16 * o.0 as u16 % 17) as u8)
    }
}
impl_add_options!(F17);
impl NonZeroCoefficient for F17 {
    fn one() -> Self {
        F17(1)
    }
    fn additive_inverse(self) -> Self {
        F17(17 - self.0)
    }
}

fn dec_opt<CF: TField>(x: Option<CF>) -> Sc {
    match x {
        None => Fld::ZERO,
        Some(x) => {
            let s = x.dec();
            if CF::fld().is_zero(s) {
                viol(format!("{:?} is a present coefficient that denotes zero", x));
            }
            s
        }
    }
}

/// Every operation on a and b (denoting sa and sb) against the reference.
fn ops<CF: TField>(a: CF, sa: Sc, b: CF, sb: Sc) {
    let f = CF::fld();
    let n = CF::NAME;
    ensure_eq!(dec_opt(a + b), f.add(sa, sb), "{n}: {sa:?} + {sb:?}");
    ensure_eq!(dec_opt(a + Some(b)), f.add(sa, sb), "{n}: {sa:?} + Some({sb:?})");
    ensure_eq!(dec_opt(a + None::<CF>), sa, "{n}: {sa:?} + absent");
    ensure_eq!((a * b).dec(), f.mul(sa, sb), "{n}: {sa:?} * {sb:?}");
    ensure_eq!(a == b, sa == sb, "{n}: equality of {sa:?} and {sb:?}");
    ensure!((a != b) == (sa != sb), "{n}: inequality of {sa:?} and {sb:?}");
}

fn unary<CF: TField>(a: CF, sa: Sc) {
    let f = CF::fld();
    let n = CF::NAME;
    ensure_eq!(a.additive_inverse().dec(), f.neg(sa), "{n}: -{sa:?}");
    ensure_eq!(a.mult_inverse().dec(), f.inv(sa), "{n}: 1/{sa:?}");
    ensure!((a + a.additive_inverse()).is_none(), "{n}: {sa:?} minus itself is present");
    ensure!(a * a.mult_inverse() == CF::one(), "{n}: {sa:?} times its inverse is not one");
    ensure!(a.additive_inverse().additive_inverse() == a, "{n}: --{sa:?}");
    ensure!(a.mult_inverse().mult_inverse() == a, "{n}: 1/(1/{sa:?})");
}

fn exhaustive<CF: TField>(ctx: &mut Ctx) {
    let p = CF::P;
    let f = CF::fld();
    ensure_eq!(CF::one().dec(), f.int(1), "{}: one", CF::NAME);
    // elements as sums of ones; the p-fold sum is absent
    let mut el: Vec<CF> = vec![CF::one()];
    for k in 2..p {
        match *el.last().unwrap() + CF::one() {
            Some(x) => el.push(x),
            None => viol(format!("{}: sum of {k} ones is absent", CF::NAME)),
        }
    }
    ensure!((*el.last().unwrap() + CF::one()).is_none(), "{}: sum of {p} ones is present", CF::NAME);
    for (i, a) in el.iter().enumerate() {
        let sa = f.int(i as i128 + 1);
        unary(*a, sa);
        ctx.add("unary_evaluations", 6);
        for (j, b) in el.iter().enumerate() {
            let sb = f.int(j as i128 + 1);
            ops(*a, sa, *b, sb);
            ctx.add("pairs_of_elements", 1);
            for (k, c) in el.iter().enumerate() {
                let sc = f.int(k as i128 + 1);
                // a + (b + c), a * (b + c) through absent values
                let s = *a + (*b + *c);
                ensure_eq!(dec_opt(s), f.add(sa, f.add(sb, sc)), "{}: {sa:?} + ({sb:?} + {sc:?})", CF::NAME);
                let t = match *b + *c {
                    Some(x) => Some(*a * x),
                    None => None,
                };
                let u = (*a * *b) + (*a * *c);
                ensure!(t == u, "{}: {sa:?} * ({sb:?} + {sc:?}) is {t:?} but distributes to {u:?}", CF::NAME);
                ctx.add("triples_of_elements", 1);
            }
        }
    }
    ctx.nontrivial = true;
    ctx.sig(CF::NAME);
    ctx.describe(|| format!("all pairs and triples of {}", CF::NAME));
}

/// A random chain of operations; pool members are compared for equality with all others.
fn chain<CF: TField>(ctx: &mut Ctx, rng: &mut Rng) {
    let f = CF::fld();
    let mut pool: Vec<(CF, Sc)> = vec![(CF::one(), f.int(1))];
    let len = rng.range(5, 60);
    let mut text = String::new();
    for _ in 0..len {
        let (a, sa) = pool[rng.below(pool.len())];
        let (b, sb) = pool[rng.below(pool.len())];
        let (r, sr): (Option<CF>, Sc) = match rng.below(6) {
            0 | 1 => (a + b, f.add(sa, sb)),
            2 => (Some(a * b), f.mul(sa, sb)),
            3 => (Some(a.additive_inverse()), f.neg(sa)),
            4 => (Some(a.mult_inverse()), f.inv(sa)),
            _ => (b + Some(a), f.add(sa, sb)),
        };
        ensure_eq!(dec_opt(r), sr, "{}: result of a chain of operations {text}", CF::NAME);
        for (x, sx) in &pool {
            if let Some(r) = r {
                ensure_eq!(r == *x, sr == *sx, "{}: equality of {sr:?} and {sx:?}", CF::NAME);
                ctx.add("equalities_decided", 1);
            }
        }
        text.push_str(&format!("{sr:?} "));
        if let Some(r) = r {
            if pool.len() < 24 {
                pool.push((r, sr));
            } else {
                let k = rng.below(pool.len());
                pool[k] = (r, sr);
            }
        }
        ctx.add("chained_operations", 1);
    }
    ctx.sig(&format!("{}{text}", CF::NAME));
    ctx.nontrivial = true;
}

const W: i128 = i64::MAX as i128;

fn fits(x: i128) -> bool {
    (-W..=W).contains(&x)
}

fn gcd(mut a: i128, mut b: i128) -> i128 {
    a = a.abs();
    b = b.abs();
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}

/// Intermediate values of a sum over the least common denominator fit a machine word.
fn add_in_domain(a: Sc, b: Sc) -> bool {
    let l = a.d / gcd(a.d, b.d);
    let Some(l) = l.checked_mul(b.d) else { return false };
    let (Some(x), Some(y)) = (a.n.checked_mul(l / a.d), b.n.checked_mul(l / b.d)) else { return false };
    fits(l) && fits(x) && fits(y) && fits(x + y)
}
fn mul_in_domain(a: Sc, b: Sc) -> bool {
    a.n.checked_mul(b.n).is_some_and(fits) && a.d.checked_mul(b.d).is_some_and(fits)
}

fn magnitude(rng: &mut Rng) -> i128 {
    let bits = rng.range(1, 62) as u32;
    let x = match rng.below(6) {
        0 => 1i128 << bits,
        1 => (1i128 << bits) - 1,
        2 => W - rng.below(3) as i128,
        3 => 720720 * (1 + rng.below(50)) as i128,
        _ => (rng.u64() >> (64 - bits)) as i128,
    };
    x.max(1)
}

/// Rationals up to the size of a machine word, each built through a different route.
fn rationals(ctx: &mut Ctx, rng: &mut Rng) {
    let f = Fld { p: 0 };
    let small = rng.chance(1, 2);
    let pick = |rng: &mut Rng| -> Sc {
        let (n, d) = if small {
            (rng.range(1, 30) as i128, rng.range(1, 30) as i128)
        } else {
            match rng.below(4) {
                0 => (magnitude(rng), 1),
                1 => (1 + rng.below(3) as i128, magnitude(rng)),
                2 => (rng.range(1, 2_000_000_000) as i128, rng.range(1, 2_000_000_000) as i128),
                _ => (magnitude(rng), magnitude(rng)),
            }
        };
        f.frac(if rng.chance(1, 2) { -n } else { n }, d)
    };
    let mut pool: Vec<(Q, Sc)> = vec![];
    let mut last: Option<Sc> = None;
    for _ in 0..rng.range(2, 8) {
        let s = match last {
            // the closest neighbours of a number, which no rounding may confuse with it
            Some(t) if rng.chance(1, 3) => {
                let d = if rng.chance(1, 2) { 1 } else { -1 };
                let (n, m) = if rng.chance(1, 2) { (t.n + d, t.d) } else { (t.n, t.d + d) };
                if n != 0 && m > 0 && fits(n) && fits(m) {
                    ctx.add("neighbouring_rationals", 1);
                    f.frac(n, m)
                } else {
                    pick(rng)
                }
            }
            _ => pick(rng),
        };
        last = Some(s);
        let q = if s.d == 1 {
            vcore::field::q_int(s.n)
        } else if rng.chance(1, 2) {
            vcore::field::q_int(s.n) * vcore::field::q_int(s.d).mult_inverse()
        } else {
            // through an unreduced product: (n * k) / (d * k) with a small k where it fits
            let k = rng.range(2, 12) as i128;
            if fits(s.n * k) && fits(s.d * k) {
                vcore::field::q_int(s.n * k) * vcore::field::q_int(-s.d * k).mult_inverse().additive_inverse()
            } else {
                vcore::field::q_int(-s.n) * vcore::field::q_int(-s.d).mult_inverse()
            }
        };
        ensure_eq!(q.dec(), s, "Q: {} / {}", s.n, s.d);
        for (x, sx) in &pool {
            ensure_eq!(q == *x, s == *sx, "Q: equality of {s:?} and {sx:?}");
            ensure_eq!(*x == q, s == *sx, "Q: equality of {sx:?} and {s:?}");
        }
        pool.push((q, s));
    }
    ctx.describe(|| format!("rationals {:?}", pool.iter().map(|x| x.1).collect::<Vec<_>>()));
    ctx.sig(&format!("{:?}", pool.iter().map(|x| x.1).collect::<Vec<_>>()));
    for _ in 0..rng.range(4, 30) {
        let (a, sa) = pool[rng.below(pool.len())];
        let (b, sb) = pool[rng.below(pool.len())];
        let (r, sr) = match rng.below(5) {
            0 | 1 => {
                if !add_in_domain(sa, sb) {
                    ctx.add("sums_beyond_a_machine_word", 1);
                    continue;
                }
                ensure_eq!(a + b, a + Some(b), "Q: {sa:?} + {sb:?} through an option");
                (a + b, f.add(sa, sb))
            }
            2 => {
                if !mul_in_domain(sa, sb) {
                    ctx.add("products_beyond_a_machine_word", 1);
                    continue;
                }
                (Some(a * b), f.mul(sa, sb))
            }
            3 => (Some(a.additive_inverse()), f.neg(sa)),
            _ => (Some(a.mult_inverse()), f.inv(sa)),
        };
        ensure_eq!(dec_opt(r), sr, "Q: operation on {sa:?} and {sb:?}");
        ensure_eq!(dec_opt(a + None::<Q>), sa, "Q: {sa:?} + absent");
        if let Some(r) = r {
            for (x, sx) in &pool {
                ensure_eq!(r == *x, sr == *sx, "Q: equality of {sr:?} and {sx:?}");
                ensure_eq!(*x == r, sr == *sx, "Q: equality of {sx:?} and {sr:?}");
            }
            let k = rng.below(pool.len());
            if pool.len() < 16 {
                pool.push((r, sr));
            } else {
                pool[k] = (r, sr);
            }
        }
        ctx.add("rational_operations", 1);
        ctx.max("largest_numerator_bits", (128 - sr.n.unsigned_abs().leading_zeros()) as u64);
        ctx.max("largest_denominator_bits", (128 - sr.d.unsigned_abs().leading_zeros()) as u64);
    }
    ctx.nontrivial = true;
}

fn macro_type(ctx: &mut Ctx) {
    for i in 1..17u8 {
        let a = F17(i);
        ensure!(a + None::<F17> == Some(a), "user type: {i} + absent");
        for j in 1..17u8 {
            ensure!(a + Some(F17(j)) == a + F17(j), "user type: {i} + Some({j})");
            ctx.add("user_type_sums", 1);
        }
    }
    ctx.nontrivial = true;
    ctx.sig("F17");
}

fn main() {
    vcore::driver::run("C01", || {}, |ctx, rng, idx| match idx {
        0 => exhaustive::<Z2>(ctx),
        1 => exhaustive::<Z3>(ctx),
        2 => exhaustive::<Z5>(ctx),
        3 => exhaustive::<Z7>(ctx),
        4 => exhaustive::<Z11>(ctx),
        5 => exhaustive::<Z13>(ctx),
        6 => macro_type(ctx),
        _ => match idx % 12 {
            0 => chain::<Z5>(ctx, rng),
            1 => chain::<Z7>(ctx, rng),
            2 => chain::<Z11>(ctx, rng),
            3 => chain::<Z13>(ctx, rng),
            4 => chain::<Z3>(ctx, rng),
            5 => chain::<Z2>(ctx, rng),
            _ => rationals(ctx, rng),
        },
    })
}
