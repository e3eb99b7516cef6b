//! Consuming iterators in many ways, and handing out iterators with different (valid) size hints.
use std::cell::Cell;

thread_local! {
    static TICK: Cell<u64> = const { Cell::new(0) };
}

/// Called before every case, so that a case replays alone.
pub fn reset(seed: u64) {
    TICK.with(|t| t.set(seed));
}

fn tick() -> u64 {
    TICK.with(|t| {
        let v = t.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        t.set(v);
        v >> 40
    })
}

/// The items of a vector behind a size hint that is right but not always exact.
pub struct Hinted<I> {
    it: I,
    style: u64,
}

pub fn hinted<T>(v: Vec<T>) -> Hinted<std::vec::IntoIter<T>> {
    Hinted { it: v.into_iter(), style: tick() % 8 }
}

impl<T> Iterator for Hinted<std::vec::IntoIter<T>> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        hint(n, self.style)
    }
}

pub fn hint_style() -> u64 {
    tick() % 8
}

pub fn hint(n: usize, style: u64) -> (usize, Option<usize>) {
    match style {
        0 => (0, None),
        1 => (0, Some(n)),
        2 => (n / 2, Some(2 * n + 1)),
        3 => (n.min(1), None),
        4 => (n.min(2), Some(n)),
        5 => (n, None),
        _ => (n, Some(n)),
    }
}

/// All items, consumed in one of several ways.
pub fn drain<I: Iterator>(it: I) -> Vec<I::Item> {
    let mut it = it;
    let mut out = vec![];
    match tick() % 8 {
        0 => return it.collect(),
        1 => {
            return it.fold(out, |mut o, x| {
                o.push(x);
                o
            })
        }
        2 => {
            while let Some(x) = it.nth(0) {
                out.push(x);
            }
        }
        3 => {
            let k = tick() as usize % 4;
            out.extend(it.by_ref().take(k));
            if out.len() == k {
                it.for_each(|x| out.push(x));
            }
        }
        4 => {
            let mut p = it.peekable();
            while p.peek().is_some() {
                out.push(p.next().unwrap());
            }
        }
        5 => {
            let _ = it.size_hint();
            let r: Result<(), ()> = it.try_for_each(|x| {
                out.push(x);
                Ok(())
            });
            r.unwrap();
        }
        _ => {
            for x in it {
                out.push(x);
            }
        }
    }
    out
}
