//! C03: wrapping a matrix never changes it.
use vcore::field::TField;
use vcore::labels::{TFil, TLabel};
use vcore::mon::Style;
use vcore::spec::*;
use vcore::stack;
use ordered_float::NotNan;
use phlite::fields::*;
use vcore::gen::Size;
use vcore::labels::Lab;
use vcore::{Ctx, Rng};

fn case<CF: TField, C: TLabel, R: TLabel, F: TFil>(
    ctx: &mut Ctx,
    rng: &mut Rng,
    spec: impl FnOnce(&mut Rng, Size) -> Spec<C, R, F>,
) {
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let size = stack::size(rng);
    let depth = rng.range(1, 6);
    let s = spec(rng, size);
    let (fp, brief) = (format!("{s:?}"), s.brief());
    let mut obs = Obs { ctx, agreement_only: false };
    let path = stack::wrappers::<CF, C, R, F>(&mut obs, rng, s, depth);
    ctx.max("deepest_stack", depth as u64);
    ctx.nontrivial = true;
    ctx.sig(&format!("{path}{fp}"));
    ctx.describe(|| format!("{} {} {} {} {path} {brief}", CF::NAME, C::NAME, R::NAME, F::NAME));
}

/// Very long columns with many repeated rows, through the consolidator and the cache.
fn long<CF: TField, L: TLabel, F: TFil>(ctx: &mut Ctx, rng: &mut Rng) {
    use phlite::matrices::MatrixOracle;
    vcore::driver::Q_OVERFLOW_OK.with(|q| q.set(CF::P == 0));
    let (cl, rl) = (L::table(3, rng), <usize as TLabel>::table(rng.range(200, 3000), rng));
    let mut s = random_spec_on::<CF, L, usize, F>(rng, &cl, &rl);
    let f = CF::fld();
    for v in s.cols.values_mut() {
        *v = rl.iter().filter_map(|r| rng.chance(9, 10).then(|| (*r, f.unit(rng)))).collect();
    }
    let d = Dyn::<CF, L, usize, F>::from_spec(&s, Style::Cancelling, Style::Split, rng);
    let mut obs = Obs { ctx, agreement_only: false };
    obs.merged_annotated(&d.clone().consolidate(), &s.cols, "long.consolidate()");
    obs.all(&d.clone().consolidate(), &s, "long.consolidate()");
    obs.all(&d.clone().cache_cols(), &s, "long.cache_cols()");
    obs.merged_annotated(&d.clone().cache_cols().consolidate().cache_cols(), &s.cols, "long");
    ctx.max("longest_column", rl.len() as u64);
    ctx.nontrivial = true;
    ctx.sig(&format!("{s:?}"));
}

fn main() {
    vcore::driver::run("C03", vcore::gen::self_check, |ctx, rng, idx| {
        if idx % 500 == 499 {
            return match rng.below(3) {
                0 => long::<Z2, Lab, isize>(ctx, rng),
                1 => long::<Z13, usize, NotNan<f64>>(ctx, rng),
                _ => long::<Z3, isize, ()>(ctx, rng),
            };
        }
        match idx % 4 {
            0 => case::<Z2, _, _, _>(ctx, rng, complex_spec::<Z2, usize, NotNan<f64>>),
            1 => case::<Z7, _, _, _>(ctx, rng, complex_spec::<Z7, Lab, isize>),
            2 => case::<Z3, _, _, _>(ctx, rng, random_spec::<Z3, isize, usize, usize>),
            _ => case::<Q, _, _, _>(ctx, rng, random_spec::<Q, Lab, usize, ()>),
        }
    });
}
