//! The analysis of a grammar gives the same answers and diagnostics whatever was asked before
//! or is being asked at the same time.

use std::sync::{Arc, Mutex};

use fall_editor::EditorFileImpl;
use lang_fall::FileWithAnalysis;
use mccore::util::{fnv, fnv_mix, n_strings, nth_string, Radix};
use mccore::{guarded, Ctx, Family, Tier};

use crate::ops::{self, ask, diagnostics, Op};
use crate::sched::{next_schedule, End, Sched};

/// Each brings a kind of query, and something to report about it.
const PARTS: [(&str, &str); 14] = [
    ("", "rule m { k }"),
    ("", "rule m { nope 'no' }"),
    ("b 'b' b r\"c\" b 'b'", "rule m { b 'q' }"),
    ("", "rule d { k } rule d { d }"),
    ("", "rule p(x, y) { x } rule q { <p k> <p q q> }"),
    ("", "rule c { <enter 'z' k> <is_in 'a'> <exit 'z' c> }"),
    ("", "rule c { <is_in k> <not> <nope k> }"),
    ("", "pub rule v { k } rule w { <prev_is v w k nope> }"),
    ("", "#[pratt] rule e { i | j } #[bin(1)] pub rule i { e 'k' e } #[atom(3)] pub rule j { k }"),
    ("", "#[bin] rule i { i k i } #[prefix] pub rule n { k } #[postfix(2)] pub rule o { k | o }"),
    ("", "ast { node s: t, u { m s* } trait t { l k.text } }"),
    ("", "ast { node s: u { m? q n k.text m.text } class q { s } }"),
    ("", "rule h { {h | <p h>}* } rule g { g } #[cached] rule r(x) { <r x> | <r r x> }"),
    ("c", "rule { a } rule m { <"),
];

fn grammar(parts: &[usize]) -> String {
    let tokens: Vec<&str> = parts.iter().map(|&p| PARTS[p].0).collect();
    let rules: Vec<&str> = parts.iter().map(|&p| PARTS[p].1).collect();
    format!("tokenizer {{ k r\"k\" q 'q' {} }} pub rule a {{ k m }} {}", tokens.join(" "), rules.join(" "))
}

fn fresh(text: &str) -> FileWithAnalysis {
    FileWithAnalysis::parse(text)
}

/// What each question is answered by when it is the first one.
struct Alone {
    answers: Vec<String>,
    diagnostics: Vec<String>,
}

fn alone(text: &str, ops: &[Op]) -> Alone {
    Alone {
        answers: ops.iter().map(|&op| ask(&fresh(text), op)).collect(),
        diagnostics: diagnostics(&fresh(text)),
    }
}

fn same(what: &dyn Fn() -> String, got: &str, want: &str) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    Err(format!("{}: {}, but on its own {}", what(), got, want))
}

/// Asks everything in this order.
fn sequence(text: &str, ops: &[Op], alone: &Alone, seq: &[usize]) -> Result<u64, String> {
    let file = fresh(text);
    let mut h = 1;
    for (n, &i) in seq.iter().enumerate() {
        let got = ask(&file, ops[i]);
        let before = || format!("{:?} after {:?}", ops[i], seq[..n].iter().map(|&i| ops[i]).collect::<Vec<_>>());
        same(&before, &got, &alone.answers[i])?;
        h = fnv_mix(h, fnv(got.as_bytes()));
    }
    let d = diagnostics(&file);
    if d != alone.diagnostics {
        return Err(format!(
            "diagnostics after {:?}: {:?}, but on their own {:?}",
            seq.iter().map(|&i| ops[i]).collect::<Vec<_>>(), d, alone.diagnostics
        ));
    }
    Ok(h)
}

/// Asks in several threads, along one schedule.
fn schedule(
    text: &str,
    ops: &[Op],
    alone: &Alone,
    program: &[Vec<usize>],
    prefix: Vec<u8>,
    alloc_points: bool,
) -> (Vec<crate::sched::Step>, bool, Result<u64, String>) {
    let file = Arc::new(fresh(text));
    let answers: Vec<Arc<Mutex<Vec<Result<String, String>>>>> = program.iter().map(|_| Default::default()).collect();
    let mut threads: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for (t, seq) in program.iter().enumerate() {
        let file = file.clone();
        let out = answers[t].clone();
        let seq: Vec<Op> = seq.iter().map(|&i| ops[i]).collect();
        threads.push(Box::new(move || {
            let mut res = Vec::with_capacity(seq.len());
            for op in seq {
                res.push(guarded(|| Ok(ask(&file, op))));
            }
            crate::sched::quiet(|| {
                // Dropped here, so that nothing is left to do for the thread.
                drop(file);
                *out.lock().unwrap() = res;
            });
        }));
    }
    let (steps, end, diverged, _) = Sched::run(threads, prefix, alloc_points);
    let judge = || {
        match end {
            End::Done => (),
            End::Deadlock(why) => return Err(format!("deadlock: {}", why)),
            End::Livelock => return Err("the threads make no progress".to_owned()),
        }
        let mut h = 1;
        for (t, seq) in program.iter().enumerate() {
            let got = answers[t].lock().unwrap();
            for (n, &i) in seq.iter().enumerate() {
                match &got[n] {
                    Err(e) => return Err(format!("{:?} in thread {}: {}", ops[i], t, e)),
                    Ok(got) => {
                        same(&|| format!("{:?} in thread {}", ops[i], t), got, &alone.answers[i])?;
                        h = fnv_mix(h, fnv(got.as_bytes()));
                    }
                }
            }
        }
        let d = guarded(|| Ok(diagnostics(&file)))?;
        if d != alone.diagnostics {
            return Err(format!("diagnostics afterwards: {:?}, but on their own {:?}", d, alone.diagnostics));
        }
        for (i, &op) in ops.iter().enumerate() {
            let got = guarded(|| Ok(ask(&file, op)))?;
            same(&|| format!("{:?} afterwards", op), &got, &alone.answers[i])?;
        }
        Ok(h)
    };
    let r = judge();
    (steps, diverged, r)
}

/// All schedules of a program with so many preemptions.
fn explore(
    text: &str,
    ops: &[Op],
    alone: &Alone,
    program: &[Vec<usize>],
    bound: usize,
    alloc_points: bool,
    ctx: &mut Ctx,
) {
    ctx.state();
    let mut prefix = Vec::new();
    let mut n = 0;
    loop {
        let (steps, diverged, r) = schedule(text, ops, alone, program, prefix.clone(), alloc_points);
        n += 1;
        ctx.transition();
        ctx.count("decisions", steps.len() as u64);
        ctx.count("schedules", 1);
        if diverged {
            ctx.count("schedules_not_followed_to_the_end", 1);
        }
        match r {
            Ok(h) => ctx.outcome(h),
            Err(e) => {
                let threads: Vec<Vec<Op>> = program.iter().map(|s| s.iter().map(|&i| ops[i]).collect()).collect();
                let taken: Vec<u8> = steps.iter().map(|s| s.enabled[s.chosen]).collect();
                ctx.fail(
                    format!("{:?} in threads {:?}", text, threads),
                    format!("{}\nthreads by decision: {:?} (schedule {})", e, taken, n),
                );
                return;
            }
        }
        match next_schedule(&steps, bound) {
            Some(p) => prefix = p,
            None => break,
        }
    }
    ctx.count("programs", 1);
}

struct G {
    text: String,
    ops: Vec<Op>,
    alone: Alone,
}

fn prepared(parts: &[usize], few: bool) -> G {
    let text = grammar(parts);
    let file = fresh(&text);
    let ops = if few { ops::representatives(&file, &text) } else { ops::all(&file, &text) };
    let alone = alone(&text, &ops);
    G { text, ops, alone }
}

fn pairs(n: usize) -> Vec<Vec<usize>> {
    let mut res = Vec::new();
    for a in 0..n {
        res.push(vec![a]);
        for b in 0..n {
            if a != b {
                res.push(vec![a, b]);
            }
        }
    }
    res
}

pub fn families(tier: Tier) -> Vec<Family> {
    // Whatever is initialized lazily in the process is initialized before any schedule.
    let all = prepared(&(0..PARTS.len()).collect::<Vec<_>>(), false);
    for i in 0..all.ops.len() {
        ask(&fresh(&all.text), all.ops[i]);
    }
    let mut res = Vec::new();
    let gs: Arc<Vec<Vec<usize>>> = Arc::new(pairs(PARTS.len()));
    {
        let gs = gs.clone();
        let len = tier.pick(2, 3);
        res.push(Family::new(
            "sequences",
            format!("all sequences of up to {} questions (queries on every node, navigation from every word, highlighting, diagnostics) to each of {} grammars", len, gs.len()),
            gs.len() as u64,
            move |i, ctx| {
                let g = prepared(&gs[i as usize], false);
                let n = g.ops.len() as u64;
                for k in 0..n_strings(n, len) {
                    let seq = nth_string(n, k);
                    ctx.state();
                    ctx.check(
                        &|| format!("{:?} asked {:?}", g.text, seq.iter().map(|&i| g.ops[i]).collect::<Vec<_>>()),
                        || sequence(&g.text, &g.ops, &g.alone, &seq),
                    );
                }
            },
        ));
    }
    {
        let gs = gs.clone();
        let len = tier.pick(3, 4);
        res.push(Family::new(
            "sequences-long",
            format!("all sequences of up to {} representative questions to each of {} grammars", len, PARTS.len()),
            PARTS.len() as u64 * 16,
            move |i, ctx| {
                let mut r = Radix(i);
                let (p, part) = (r.take(PARTS.len()), r.0);
                let g = prepared(&gs[p * PARTS.len()], true);
                let n = g.ops.len() as u64;
                let mut k = part;
                while k < n_strings(n, len) {
                    let seq = nth_string(n, k);
                    ctx.state();
                    ctx.check(
                        &|| format!("{:?} asked {:?}", g.text, seq.iter().map(|&i| g.ops[i]).collect::<Vec<_>>()),
                        || sequence(&g.text, &g.ops, &g.alone, &seq),
                    );
                    k += 16;
                }
            },
        ));
    }
    let schedules = |name: &str, what: &str, gs: Vec<Vec<usize>>, shape: Vec<usize>, bound: usize, max_ops: usize, alloc: bool| {
        let cells = 24;
        Family::new(
            name,
            format!(
                "{} grammars, all programs of threads with {:?} of up to {} representative questions, all schedules with up to {} preemptions at {}",
                gs.len(), shape, max_ops, bound, what
            ),
            gs.len() as u64 * cells,
            move |i, ctx| {
                let mut r = Radix(i);
                let (p, part) = (r.take(gs.len()), r.0);
                let mut g = prepared(&gs[p], true);
                if g.ops.len() > max_ops {
                    g.ops.truncate(max_ops);
                    g.alone.answers.truncate(max_ops);
                }
                let n = g.ops.len();
                let total: usize = shape.iter().sum();
                let mut n_programs = 1u64;
                for _ in 0..total {
                    n_programs *= n as u64;
                }
                let mut done = 0u64;
                for k in 0..n_programs {
                    let mut r = Radix(k);
                    let program: Vec<Vec<usize>> =
                        shape.iter().map(|&l| (0..l).map(|_| r.take(n)).collect()).collect();
                    // Threads are interchangeable.
                    if program.windows(2).any(|w| w[0].len() == w[1].len() && w[0] > w[1]) {
                        continue;
                    }
                    done += 1;
                    if done % cells == part {
                        explore(&g.text, &g.ops, &g.alone, &program, bound, alloc, ctx);
                    }
                }
            },
        )
    };
    let singles: Vec<Vec<usize>> = (0..PARTS.len()).map(|p| vec![p]).collect();
    let locks = "the acquisition of locks";
    res.push(schedules("two-threads", locks, singles.clone(), vec![1, 1], tier.pick(2, 3), 40, false));
    res.push(schedules("two-by-two", locks, singles.clone(), vec![2, 2], tier.pick(1, 2), tier.pick(4, 6), false));
    res.push(schedules("three-threads", locks, singles.clone(), vec![1, 1, 1], tier.pick(1, 2), tier.pick(6, 8), false));
    res.push(schedules("mixed-grammars", locks, pairs(PARTS.len()), vec![1, 1], tier.pick(1, 2), 40, false));
    res.push(schedules("everywhere", "locks and allocations", singles, vec![1, 1], 1, tier.pick(8, 40), true));
    res
}
