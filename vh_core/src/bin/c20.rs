//! C20: the Rips command line reports exactly the barcode of its input.
use phlite_rips::RipsIndex;
use std::collections::HashMap;
use std::io::Write;
use std::process::{Command, Stdio};
use vcore::rips::{self, fbits};
use vcore::{ensure, ensure_eq, Ctx, Rng};

struct Out {
    ok: bool,
    status: String,
    stdout: String,
    stderr: String,
}

fn cli(input: &[u8], arg: Option<&str>) -> Out {
    let path = std::env::var("VERIF_CLI").expect("VERIF_CLI");
    let mut c = Command::new(path);
    if let Some(a) = arg {
        c.arg(a);
    }
    let mut ch = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn");
    let mut si = ch.stdin.take().unwrap();
    // small inputs fit the pipe; a child that stops reading early is fine
    let data = input.to_vec();
    let w = std::thread::spawn(move || {
        let _ = si.write_all(&data);
    });
    let o = ch.wait_with_output().expect("wait");
    w.join().unwrap();
    Out {
        ok: o.status.success(),
        status: format!("{}", o.status),
        stdout: String::from_utf8_lossy(&o.stdout).into_owned(),
        stderr: String::from_utf8_lossy(&o.stderr).chars().take(400).collect(),
    }
}

fn cell(x: f64, rng: &mut Rng) -> String {
    let s = match rng.below(6) {
        0 => format!("{x:?}"),
        1 if x.is_finite() => format!("{x:e}"),
        2 if x.is_sign_positive() && x < 1e10 => format!("+{x}"),
        _ => format!("{x}"),
    };
    if rng.chance(1, 30) {
        format!("\"{s}\"")
    } else {
        s
    }
}

fn csv(d: &[Vec<f64>], rng: &mut Rng) -> String {
    let eol = match rng.below(24) {
        0 | 1 | 2 => "\r\n",
        3 => "\r",
        // empty lines are no rows
        4 => "\n\n",
        _ => "\n",
    };
    let mut s = d
        .iter()
        .map(|r| r.iter().map(|x| cell(*x, rng)).collect::<Vec<_>>().join(","))
        .collect::<Vec<_>>()
        .join(eol);
    if rng.chance(3, 4) {
        s.push_str(eol);
    }
    s
}

fn binom(n: usize, k: usize) -> usize {
    if k > n {
        return 0;
    }
    (0..k).fold(1, |a, i| a * (n - i) / (i + 1))
}

/// The text between `key` and the end of the line or the matching close.
fn number_after<'a>(line: &'a str, key: &str, end: &[char]) -> Option<&'a str> {
    let i = line.find(key)? + key.len();
    let rest = &line[i..];
    Some(&rest[..rest.find(end).unwrap_or(rest.len())])
}

fn indices(line: &str) -> Vec<usize> {
    line.split("RipsIndex(")
        .skip(1)
        .filter_map(|s| s[..s.find(')').unwrap_or(0)].parse().ok())
        .collect()
}

fn good(ctx: &mut Ctx, rng: &mut Rng) {
    let n = match rng.below(20) {
        0 => 1,
        1..=16 => rng.range(2, 8),
        17 | 18 => rng.range(9, 14),
        _ => rng.range(15, 30),
    };
    let mut d = rips::matrix(rng, n);
    // bars around the reporting threshold
    if rng.chance(1, 3) {
        let base = 1.0 + rng.f01();
        // lengths that differ from the threshold by nothing, or in the last bit only
        let exact = rng.chance(1, 2);
        for i in 0..n {
            for j in 0..i {
                let x = if exact {
                    *rng.pick(&[0.01, 0.01, 0.01f64.next_up(), 0.01f64.next_down(), 0.02, 0.02f64.next_up(), 0.02f64.next_down(), 0.04, 0.05])
                } else {
                    base + *rng.pick(&[0.0, 0.009, 0.00999999, 0.01, 0.0100001, 0.011, 0.02, 0.5])
                };
                d[i][j] = x;
                d[j][i] = x;
            }
        }
        ctx.add("bars_near_the_threshold", 1);
    }
    let md = match (rng.below(6), n) {
        (0, _) => Some(0),
        (1 | 2, _) => None,
        (3, _) => Some(1),
        (4, 0..=14) => Some(2),
        (_, 0..=7) => Some(rng.range(2, 5)),
        _ => Some(1),
    };
    let top = md.unwrap_or(1);
    let input = csv(&d, rng);
    ctx.sig(&format!("{d:?}{md:?}"));
    ctx.describe(|| format!("max_dim {md:?}, input:\n{input}"));
    let o = cli(input.as_bytes(), md.map(|m| m.to_string()).as_deref());
    ensure!(o.ok, "exit {} on a well-formed matrix; stderr: {}", o.status, o.stderr);
    // ---- parse
    let mut sizes: Vec<(usize, usize)> = vec![];
    let mut ess: Vec<(usize, u64)> = vec![];
    let mut fin: Vec<(usize, u64, u64)> = vec![];
    let mut section = 0;
    let fval = |s: &str, line: &str| -> f64 { s.trim().parse::<f64>().unwrap_or_else(|_| vcore::viol(format!("cannot read a number in {line:?}"))) };
    // what the library prints for each simplex, in each dimension
    let mut printed: Vec<HashMap<usize, Vec<usize>>> = vec![HashMap::new(); top + 2];
    let all = if binom(n, top + 2) <= 20_000 { rips::simplices(n, top + 1) } else { vec![] };
    for v in &all {
        let l = format!("{:?}", RipsIndex::from_indices(v.iter().copied(), n).unwrap());
        if let [x] = indices(&l)[..] {
            printed[v.len() - 1].insert(x, v.clone());
        }
    }
    let check = |idx: usize, dim: usize, f: f64, line: &str| {
        if printed[dim].is_empty() {
            return;
        }
        let Some(v) = printed[dim].get(&idx) else { vcore::viol(format!("{line:?}: no simplex of dimension {dim} has index {idx}")) };
        ensure!(rips::diameter(v, &d) == f, "{line:?}: the simplex {v:?} has diameter {}", rips::diameter(v, &d));
    };
    for line in o.stdout.lines() {
        match line.trim() {
            "" => continue,
            "Basis sizes:" => {
                section = 1;
                continue;
            }
            "Essential:" => {
                section = 2;
                continue;
            }
            "Pairings:" => {
                section = 3;
                continue;
            }
            _ => {}
        }
        let bad = || -> ! { vcore::viol(format!("unexpected output line {line:?}")) };
        match section {
            1 => {
                let dim = number_after(line, "Dimension ", &[':']).and_then(|s| s.trim().parse().ok()).unwrap_or_else(|| bad());
                let k = number_after(line, ": ", &[]).and_then(|s| s.trim().parse().ok()).unwrap_or_else(|| bad());
                sizes.push((dim, k));
            }
            2 | 3 => {
                let dim: usize = number_after(line, "dim=", &[',']).and_then(|s| s.trim().parse().ok()).unwrap_or_else(|| bad());
                let i = line.rfind("f=(").unwrap_or_else(|| bad());
                let inner = line[i + 3..].trim_end().strip_suffix(')').unwrap_or_else(|| bad());
                let (a, b) = inner.split_once(", ").unwrap_or_else(|| bad());
                let birth = fval(a, line);
                let ids = indices(line);
                if section == 2 {
                    ensure!(b == "∞", "{line:?} is listed as essential");
                    if let [x] = ids[..] {
                        check(x, dim, birth, line);
                    }
                    ess.push((dim, fbits(birth)));
                } else {
                    let death = fval(b, line);
                    if let [x, y] = ids[..] {
                        check(x, dim, birth, line);
                        check(y, dim + 1, death, line);
                    }
                    fin.push((dim, fbits(birth), fbits(death)));
                }
            }
            _ => bad(),
        }
    }
    // ---- compare
    ensure_eq!(sizes, (0..=top).map(|k| (k, binom(n, k + 1))).collect::<Vec<_>>(), "basis sizes (n={n})");
    let bars = rips::barcode(&d, top, 2);
    let mut want_ess: Vec<(usize, u64)> = bars.iter().filter(|b| b.2.is_none()).map(|b| (b.0, b.1)).collect();
    let mut want_fin: Vec<(usize, u64, u64)> = bars
        .iter()
        .filter_map(|b| b.2.map(|e| (b.0, b.1, e)))
        .filter(|(_, b, e)| f64::from_bits(*e) - f64::from_bits(*b) > 0.01)
        .collect();
    want_ess.sort();
    want_fin.sort();
    ess.sort();
    fin.sort();
    // a bar from infinity to infinity has no length to compare with the threshold: listed or not, it is right
    let inf = f64::INFINITY.to_bits();
    ctx.add("runs_with_infinite_distances", u64::from(d.iter().flatten().any(|x| x.is_infinite())));
    fin.retain(|b| (b.1, b.2) != (inf, inf));
    let show = |v: &[(usize, u64, u64)]| v.iter().map(|(k, b, e)| (*k, f64::from_bits(*b), f64::from_bits(*e))).collect::<Vec<_>>();
    ensure_eq!(ess, want_ess, "infinite bars (degree, bits of birth)");
    ensure!(fin == want_fin, "finite bars: got {:?}, expected {:?}", show(&fin), show(&want_fin));
    ctx.add("runs_compared", 1);
    ctx.add("infinite_bars", ess.len() as u64);
    ctx.add("finite_bars", fin.len() as u64);
    ctx.add("bars_exactly_at_the_threshold", bars.iter().filter(|b| b.2.is_some_and(|e| f64::from_bits(e) - f64::from_bits(b.1) == 0.01)).count() as u64);
    ctx.add("bars_below_the_threshold", bars.iter().filter(|b| b.2.is_some()).count() as u64 - fin.len() as u64);
    ctx.add("higher_degree_bars", fin.iter().filter(|b| b.0 > 0).count() as u64);
    match md {
        None => ctx.add("runs_with_default_dimension", 1),
        Some(0) => ctx.add("runs_with_dimension_zero", 1),
        _ => {}
    }
    ctx.max("most_points", n as u64);
    ctx.nontrivial = n > 1;
}

fn malformed(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.range(2, 8);
    let d = rips::matrix(rng, n);
    let mut cells: Vec<Vec<String>> = d.iter().map(|r| r.iter().map(|x| format!("{x}")).collect()).collect();
    let (i, j) = (rng.below(n), rng.below(n));
    let kind = rng.below(4);
    match kind {
        0 => {
            let junk = *rng.pick(&["a", "1.0x", "--1", "", "1.2.3", "0x10", "one", "1_000", "#", "1;2", "None", "\u{221e}"]);
            cells[i][j] = junk.to_string();
            if rng.chance(1, 2) {
                cells[j][i] = junk.to_string();
            }
            ctx.add("non_numeric_inputs", 1);
        }
        1 => {
            let nan = *rng.pick(&["NaN", "nan", "-nan", "+NaN", "NAN"]);
            cells[i][j] = nan.to_string();
            if rng.chance(1, 2) {
                cells[j][i] = nan.to_string();
            }
            ctx.add("not_a_number_inputs", 1);
        }
        2 => {
            // whole rows or columns that are no numbers: names, remarks, trailing separators
            let name = |k: usize, rng: &mut Rng| rng.pick(&[format!("p{k}"), "x".into(), format!("\"p {k}\""), "NaN".into(), String::new()]).clone();
            match rng.below(5) {
                0 => {
                    let h = (0..n).map(|k| name(k, rng)).collect();
                    cells.insert(0, h);
                }
                1 => {
                    let h = (0..n).map(|k| name(k, rng)).collect();
                    cells.push(h);
                }
                2 => {
                    for (k, r) in cells.iter_mut().enumerate() {
                        r.insert(0, format!("p{k}"));
                    }
                }
                3 => {
                    for r in cells.iter_mut() {
                        r.push(String::new());
                    }
                }
                _ => {
                    let mut h = vec!["1".to_string(); n];
                    h[0] = rng.pick(&["# 1", "// 1", "% 1", "; 1", "-"]).to_string();
                    let at = rng.below(n + 1);
                    cells.insert(at, h);
                }
            }
            ctx.add("named_or_annotated_inputs", 1);
        }
        _ => {
            // rows of unequal length
            match rng.below(4) {
                0 => {
                    cells[i].pop();
                }
                1 => cells[i].push("1".into()),
                // triangular forms
                2 => {
                    for (k, r) in cells.iter_mut().enumerate() {
                        r.truncate(k + 1);
                    }
                }
                _ => {
                    for (k, r) in cells.iter_mut().enumerate() {
                        r.drain(..k);
                    }
                }
            }
            ctx.add("ragged_inputs", 1);
        }
    }
    let input = cells.iter().map(|r| r.join(",")).collect::<Vec<_>>().join("\n") + "\n";
    ctx.sig(&input);
    ctx.describe(|| format!("malformed input:\n{input}"));
    let arg = *rng.pick(&[None, Some("0"), Some("1"), Some("2")]);
    let o = cli(input.as_bytes(), arg);
    ensure!(!o.ok, "exit status 0 on malformed input; output:\n{}", o.stdout.chars().take(600).collect::<String>());
    ensure!(!o.stdout.contains("f=("), "bars printed for malformed input:\n{}", o.stdout.chars().take(600).collect::<String>());
    ctx.nontrivial = true;
}

fn main() {
    vcore::driver::run("C20", vcore::gen::self_check, |ctx, rng, idx| {
        if idx % 5 == 4 {
            malformed(ctx, rng)
        } else {
            good(ctx, rng)
        }
    });
}
