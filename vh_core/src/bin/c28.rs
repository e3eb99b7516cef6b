//! C28: reductions use memory in proportion to V, never to D or R; products and sums stream.
//! A counting global allocator observes live and peak bytes of the thread that runs the reduction.
use ordered_float::NotNan;
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::{ColBasis, FiltrationValue, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use phlite::reduction::{read_off_diagram, standard_algo, standard_algo_with_diagram, ClearedReductionMatrix};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::cmp::Reverse;
use vcore::field::TField;
use vcore::{dispatch_few, ensure, ensure_eq, Ctx, Rng};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<i64> = const { Cell::new(0) };
}
struct Counting;
fn note(d: i64) {
    let _ = LIVE.try_with(|l| {
        let x = l.get() + d;
        l.set(x);
        let _ = PEAK.try_with(|p| p.set(p.get().max(x)));
        if d > 0 {
            let _ = TOTAL.try_with(|t| t.set(t.get() + d));
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // old and new block exist together while moving
        note(n as i64);
        note(-(l.size() as i64));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// (result, bytes kept, peak bytes above the start)
fn measured<T>(f: impl FnOnce() -> T) -> (T, i64, i64) {
    let l0 = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(l0));
    let t = f();
    let kept = LIVE.with(|l| l.get()) - l0;
    let peak = PEAK.with(|p| p.get()) - l0;
    (t, kept, peak)
}

/// A matrix computed on the fly: `n` long columns in dimension 1 over `rows` cells of dimension 0
/// (or in dimensions 2 over 1 above empty columns). Cells: 0..rows are rows, rows..rows+n are columns.
/// Columns come in families with a common pivot, so that V needs a few additions per column,
/// while every column of D and almost every column of R has about `len` entries.
struct Virtual<CF, F> {
    rows: usize,
    n: usize,
    len: usize,
    /// columns 3k+1 are a multiple of 3k (reduce to zero), 3k+2 share the pivot of 3k
    scale: CF,
    one: CF,
    basis: Dims,
    fil: F,
}
struct Range(usize, usize);
impl ColBasis for Range {
    type ElemT = usize;
    fn element(&self, i: usize) -> usize {
        self.0 + i
    }
    fn size(&self) -> usize {
        self.1 - self.0
    }
}
struct Dims {
    all: Range,
    subs: Vec<Range>,
}
impl ColBasis for Dims {
    type ElemT = usize;
    fn element(&self, i: usize) -> usize {
        self.all.element(i)
    }
    fn size(&self) -> usize {
        self.all.size()
    }
}
impl SplitByDimension for Dims {
    type SubBasisT = Range;
    fn in_dimension(&self, d: usize) -> &Range {
        &self.subs[d]
    }
}
struct It<CF> {
    next: usize,
    len: usize,
    piv: [Option<usize>; 2],
    c: CF,
    sgn: CF,
}
impl<CF: TField> Iterator for It<CF> {
    type Item = (CF, usize);
    fn next(&mut self) -> Option<(CF, usize)> {
        if let Some(p) = self.piv[0].take() {
            return Some((self.c, p));
        }
        if let Some(p) = self.piv[1].take() {
            return Some((self.sgn, p));
        }
        if self.next < self.len {
            self.next += 1;
            return Some((if self.next % 3 == 0 { self.sgn } else { self.c }, self.next - 1));
        }
        None
    }
}
impl<CF: TField, F: Fn(usize) -> FV, FV: FiltrationValue> MatrixOracle for Virtual<CF, F> {
    type CoefficientField = CF;
    type ColT = usize;
    type RowT = usize;
    fn column(&self, col: usize) -> impl Iterator<Item = (CF, usize)> {
        let k = col.wrapping_sub(self.rows);
        if col < self.rows || k >= self.n {
            return It { next: 0, len: 0, piv: [None, None], c: self.one, sgn: self.one };
        }
        let fam = k / 3;
        let top = self.rows - 1 - 2 * fam;
        match k % 3 {
            0 => It { next: 0, len: self.len, piv: [Some(top), None], c: self.one, sgn: self.scale },
            1 => It { next: 0, len: self.len, piv: [Some(top), None], c: self.scale, sgn: self.scale * self.scale },
            _ => It { next: 0, len: self.len / 2, piv: [Some(top), Some(top - 1)], c: self.scale, sgn: self.one },
        }
    }
}
impl<CF: TField, F: Fn(usize) -> FV, FV: FiltrationValue> HasRowFiltration for Virtual<CF, F> {
    type FiltrationT = FV;
    fn filtration_value(&self, row: usize) -> FV {
        (self.fil)(row)
    }
}
impl<CF: TField, F: Fn(usize) -> FV, FV: FiltrationValue> HasColBasis for Virtual<CF, F> {
    type BasisT = Dims;
    type BasisRef<'a>
        = &'a Dims
    where
        Self: 'a;
    fn basis(&self) -> &Dims {
        &self.basis
    }
}

/// Bytes allowed: constants times basis size, terms of V, and the longest working column.
fn allow(basis: usize, vterms: usize, work: usize) -> i64 {
    (16_384 + 256 * basis + 128 * vterms + 160 * work) as i64
}

fn reduce<CF: TField, F: Fn(usize) -> FV, FV: FiltrationValue + Clone + 'static>(ctx: &mut Ctx, rng: &mut Rng, fil: F, reversed_fil: bool) {
    let n = 3 * rng.range(100, if ctx.tier_thorough { 400 } else { 160 });
    let len = rng.range(1500, 3000);
    let rows = len + n + 10;
    let three = rng.chance(1, 2);
    let scale = CF::enc(CF::fld().unit(rng));
    let scale = if CF::P == 0 { CF::enc(CF::fld().sign(rng)) } else { scale };
    let all = Range(0, rows + n);
    let subs = if three {
        vec![Range(0, 0), Range(0, rows), Range(rows, rows + n)]
    } else {
        vec![Range(0, rows), Range(rows, rows + n)]
    };
    let top = subs.len() - 1;
    let m = Virtual { rows, n, len, scale, one: CF::one(), basis: Dims { all, subs }, fil };
    let size = rows + n;
    let d_entries = n * len;
    // a column is added at most a few times: D[j] plus a few columns of R
    let work = 4 * (len + 2);
    let what = rng.below(if reversed_fil { 3 } else { 4 });
    ctx.describe(|| format!("{} {} long columns of about {len} entries over {rows} rows, algorithm {what}, three dimensions: {three}", CF::NAME, n));
    ctx.sig(&format!("{n} {len} {what} {three}"));
    let (kept, peak, vterms, pairs, v_kind): (i64, i64, usize, usize, &str) = match what {
        0 => {
            let (v, kept, peak) = measured(|| standard_algo(&m));
            let vt: usize = (0..size).map(|j| v.column(j).count()).sum();
            let rev = rng.chance(1, 2);
            let (d, k2, p2) = measured(|| read_off_diagram(&m, &v, rev));
            ensure!(
                k2 <= allow(size, 0, 0) && p2 <= allow(size, 0, work),
                "reading off the diagram: keeps {k2} bytes, peak {p2} bytes, for {size} cells and a longest column of {len} entries (D has {d_entries})"
            );
            (kept, peak, vt, d.pairings.len(), "standard_algo")
        }
        1 => {
            let ((v, d), kept, peak) = measured(|| standard_algo_with_diagram(&m, false));
            let vt: usize = (0..size).map(|j| v.column(j).count()).sum();
            (kept, peak, vt, d.pairings.len(), "standard_algo_with_diagram")
        }
        2 => {
            let dims: Vec<usize> = (0..=top).rev().collect();
            let ((v, d), kept, peak) = measured(|| ClearedReductionMatrix::build_with_diagram(&m, dims.iter().copied()));
            let births: std::collections::HashSet<usize> = d.pairings.iter().map(|(b, _)| *b).collect();
            let vt: usize = (0..size).filter(|j| !births.contains(j)).map(|j| v.column(j).count()).sum();
            (kept, peak, vt, d.pairings.len(), "clearing")
        }
        _ => {
            // only the dimension with long columns
            let ((v, d), kept, peak) = measured(|| ClearedReductionMatrix::build_with_diagram(&m, [top]));
            let vt: usize = (rows..size).map(|j| v.column(j).count()).sum();
            // streaming: R = DV and V read in one go; the boxed iterator of V is all that is allocated
            let r = product(&m, &v);
            let ((cnt, cyc), k2, p2) = measured(|| {
                let mut c = 0usize;
                for j in rows..size {
                    c += r.column(j).count();
                }
                (c, v.col_is_cycle(rows + 1))
            });
            ensure!(cyc, "column {} is a cycle by construction", rows + 1);
            ensure!(cnt >= d_entries / 3, "R has only {cnt} terms");
            ensure!(
                k2 <= 64 && p2 <= allow(0, 0, work),
                "reading the columns of R = DV: keeps {k2} bytes, peak {p2} bytes, while {cnt} terms were read"
            );
            ctx.add("streamed_terms", cnt as u64);
            (kept, peak, vt, d.pairings.len(), "clearing of one dimension")
        }
    };
    ensure_eq!(pairs, 2 * (n / 3), "{v_kind}: number of pairs of the synthetic matrix");
    let (ak, ap) = (allow(size, vterms, 0), allow(size, vterms, work));
    ensure!(
        kept <= ak,
        "{v_kind}: {kept} bytes stay allocated for {size} cells and {vterms} terms of V (allowed {ak}; D has {d_entries} entries)"
    );
    ensure!(
        peak <= ap,
        "{v_kind}: {peak} bytes were allocated at the peak for {size} cells, {vterms} terms of V and working columns of {work} entries (allowed {ap}; D has {d_entries} entries)"
    );
    ctx.add("reductions_measured", 1);
    ctx.add("entries_of_D", d_entries as u64);
    ctx.add("terms_of_V", vterms as u64);
    ctx.max("bytes_kept", kept as u64);
    ctx.max("bytes_peak", peak as u64);
    ctx.max("kept_permille_of_allowance", (kept * 1000 / ak) as u64);
    ctx.max("peak_permille_of_allowance", (peak * 1000 / ap) as u64);
    // the allowance has to be far below the size of D, or the measurement decides nothing
    ensure!(ap * 2 < (d_entries * 16) as i64, "allowance {ap} is not small against D ({d_entries} entries)");
    ctx.nontrivial = vterms > size;
}

/// Reading products and sums of on-the-fly matrices allocates nothing in proportion to the column.
fn stream<CF: TField>(ctx: &mut Ctx, rng: &mut Rng) {
    let n = 300;
    let len = rng.range(1000, 3000);
    let rows = len + 700;
    let mk = |len: usize, s: CF| Virtual {
        rows,
        n,
        len,
        scale: s,
        one: CF::one(),
        basis: Dims { all: Range(0, rows + n), subs: vec![Range(0, rows), Range(rows, rows + n)] },
        fil: |i: usize| NotNan::new(i as f64).unwrap(),
    };
    let s = CF::enc(CF::fld().sign(rng));
    let a = mk(len, s);
    let b = mk(len / 2, s);
    // right factor whose columns hit the long columns of a
    let shift = Shift { inner: &b, by: rows, n, unit: s };
    let kind = rng.below(6);
    let j = rows + rng.below(n);
    ctx.describe(|| format!("streaming {} kind {kind} column {j} length {len}", CF::NAME));
    ctx.sig(&format!("st{kind}{j}{len}"));
    let (cnt, kept, peak) = measured(|| match kind {
        0 => product(&a, &shift).column(j).count(),
        1 => product(&a, &shift).column_with_filtration(j).count(),
        2 => sum(&a, sum(&b, &a)).column(j).count(),
        3 => product(&a, &shift).reverse().column_with_filtration(Reverse(j)).count(),
        4 => sum(product(&a, &shift), product(&b, &shift)).column(j).count(),
        _ => product(&a, sum(&shift, &shift)).with_trivial_filtration().column_with_filtration(j).count(),
    });
    ensure!(cnt > len / 2, "only {cnt} entries were streamed");
    ensure!(
        kept <= 64 && peak <= 4096,
        "streaming {cnt} entries (kind {kind}) keeps {kept} bytes and allocates {peak} bytes at the peak"
    );
    // draining consumes the working column in place
    let mut col = a.build_bhcol(j);
    let (k, _, peak) = measured(|| col.drain_sorted().count());
    ensure!(k > len / 2 && peak <= 4096, "draining a column of {k} entries allocates {peak} bytes");
    ctx.add("streamed_terms", cnt as u64);
    ctx.add("columns_streamed", 1);
    ctx.max("bytes_while_streaming", peak.max(0) as u64);
    ctx.nontrivial = true;
}

/// Column j of the inner matrix with row r mapped to column `by + r % n`.
struct Shift<M, CF> {
    inner: M,
    by: usize,
    n: usize,
    unit: CF,
}
impl<M: MatrixOracle<CoefficientField = CF, ColT = usize, RowT = usize>, CF: TField> MatrixOracle for Shift<M, CF> {
    type CoefficientField = CF;
    type ColT = usize;
    type RowT = usize;
    fn column(&self, col: usize) -> impl Iterator<Item = (CF, usize)> {
        let (by, n, u) = (self.by, self.n, self.unit);
        self.inner.column(col).take(60).map(move |(c, r)| (c * u, by + r % n))
    }
}

fn case<CF: TField, L, F>(ctx: &mut Ctx, rng: &mut Rng) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    match rng.below(4) {
        0 | 1 => stream::<CF>(ctx, rng),
        2 => reduce::<CF, _, _>(ctx, rng, |i: usize| NotNan::new(i as f64).unwrap(), false),
        _ => reduce::<CF, _, _>(ctx, rng, |_i: usize| (), true),
    }
    let _: Option<(L, F)> = None;
}

fn main() {
    vcore::driver::run("C28", || {}, |ctx, rng, idx| {
        dispatch_few!(idx as usize, case(ctx, rng))
    })
}
