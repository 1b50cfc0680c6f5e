//! Model-based monitor over all compositions (most history properties), lockstep comparison
//! (C13), digests (C25), and replay of recorded histories.
use std::collections::HashSet;
use vebchecks::all;
use vebmon::configs::Config;
use vebmon::engine::*;
use vebmon::gen::{self, Mix, Op};
use vebmon::host::*;
use vebmon::rng::{hash_str, mix2, Rng};

struct Plan {
    want: u64,
    watch: Watch,
    mix: Mix,
    /// percent of medium, scenario cases
    medium: usize,
    scenario: usize,
    /// keys in the exhaustive walk (0 = none), and Miri-size otherwise
    walk: usize,
}

fn plan(prop: u32) -> Plan {
    let mut w = Watch { ledger: false, ..Watch::default() };
    let mut mix = Mix { clear: 1, ..Mix::default() };
    let (mut medium, mut scenario) = (8, 3);
    match prop {
        1 => {
            (w.find, w.muts) = (true, true);
            mix.probe = 15;
        }
        5 => {
            (w.neigh, w.muts) = (true, true);
            mix.probe = 20;
        }
        6 => {
            w = Watch::all();
            mix.muts = 50;
            w.ledger = false;
        }
        7 => {
            (w.monad, w.find, w.ext, w.iter) = (true, true, true, false);
            mix.monad = 12;
        }
        8 => {
            (w.monad, w.len) = (true, true);
            mix.monad = 4;
            mix.muts = 4;
            scenario = 6;
        }
        9 | 10 => {
            (w.iter, w.hints, w.len) = (true, true, true);
            mix.iter = 40;
            medium = 12;
        }
        14 | 16 => {
            w = Watch::all();
            w.hints = false;
            if prop == 16 {
                mix.handles = 6;
            }
            mix.muts = 6;
            mix.monad = 3;
            mix.clone = 8;
            mix.clear = 3;
        }
        18 => {
            w = Watch::all();
            w.ledger = true;
            mix.clone = 22;
            mix.muts = 8;
            mix.monad = 2;
        }
        24 => {
            w.handles = false;
            w.find = true;
            w.neigh = true;
            w.muts = true;
            w.ext = true;
            w.iter = true;
            mix.muts = 8;
            mix.handles = 45;
            mix.probe = 25;
            medium = 6;
            scenario = 0;
        }
        26 => {
            // anything wrong in a tree with a user's part is a finding here
            w = Watch::all();
            mix.muts = 6;
            mix.probe = 5;
            mix.monad = 3;
            mix.clone = 6;
            mix.iter = 8;
        }
        _ => {
            w = Watch::all();
            w.ledger = false;
            mix.muts = 3;
            mix.probe = 3;
            mix.monad = 2;
        }
    }
    Plan { want: if prop == 26 { !0 } else { tag(prop) }, watch: w, mix, medium, scenario, walk: if prop == 24 { 0 } else { 9 } }
}

fn pick_cfg<'a>(rng: &mut Rng, cfgs: &'a [Config], idx: u64, prop: u32) -> &'a Config {
    let mut i = idx as usize % cfgs.len();
    loop {
        let c = &cfgs[i];
        let ok = match prop {
            8 => c.len,
            10 => c.exact_iter || c.len || rng.chance(1, 3),
            18 => c.clone,
            14 | 16 => c.tok || c.uk || rng.chance(1, 3),
            _ => true,
        };
        if ok && (c.heavy == 1 || rng.chance(1, c.heavy)) {
            return c;
        }
        i = rng.below(cfgs.len());
    }
}

fn make_case(rng: &mut Rng, c: &Config, p: &Plan, deep: bool) -> (&'static str, Vec<Op>) {
    let r = rng.below(100);
    let cheap = c.heavy == 1;
    if r < p.scenario && cheap {
        let n = [40, 130, 300, 300, 700, if deep { 6000 } else { 1500 }][rng.below(6)];
        let every = [0, 7, 64, 257][rng.below(4)];
        ("scenario", gen::scenario(rng, c, n, every))
    } else if r < p.scenario + p.medium && cheap {
        let len = 100 + rng.below(if deep { 800 } else { 300 });
        let np = 20 + rng.below(300);
        ("medium", gen::history(rng, c, &p.mix, len, np, (2, 150)))
    } else {
        let len = 15 + rng.below(if cheap { 90 } else { 40 });
        let np = 2 + rng.below(22);
        let steer = [(0, 3), (1, 4), (0, 6), (1, 12), (3, 20)][rng.below(5)];
        ("churn", gen::history(rng, c, &p.mix, len, np, steer))
    }
}

/// Index of the first multitude among digests
const MULTI: u64 = 1 << 40;

/// Compositions small enough for every subtree of the top level to be present.
fn crowdable(cfgs: &[Config]) -> impl Iterator<Item = &Config> {
    cfgs.iter().filter(|c| (8..=32).contains(&c.bits) && c.interior && !c.name.contains("collide"))
}

fn replay_text(kind: &str, prop: u32, c: &str, full_upto: usize, ops: &[Op], msg: &str) -> String {
    format!("#veb-replay {kind}\n#prop C{prop:02}\n#cfg {c}\n#full_upto {full_upto}\n#msg {}\n{}", msg.replace('\n', " "), gen::script(ops))
}

fn fill(out: &mut Output, s: &Stats, d: HashSet<u64>) {
    out.count("histories", s.histories);
    out.count("operations", s.ops);
    out.count("observations_compared", s.observations);
    out.count("full_content_checks", s.full_checks);
    out.count("iterator_steps", s.iter_steps);
    out.count("handles_examined", s.handles);
    out.count("overwrites", s.replaced);
    out.count("removals_of_absent_keys", s.absent_removals);
    out.count("trees_emptied", s.emptied);
    out.count("clones", s.clones);
    out.max("entries", s.max_len);
    for (i, n) in ["0", "1", "2", "3-8", "9-64", ">64"].iter().enumerate() {
        out.count(&format!("ops_at_size_{n}"), s.size_hist[i]);
    }
    for (i, n) in [
        (1, "insert"), (2, "remove"), (3, "remove_min"), (4, "remove_max"), (5, "into_monad"), (6, "probe"), (7, "find_mut"),
        (8, "pred_mut"), (9, "succ_mut"), (10, "min_mut"), (11, "max_mut"), (12, "iterate"), (13, "clone"), (18, "clone_from"), (14, "swap"), (15, "handles"),
    ] {
        if s.by_op[i] > 0 {
            out.count(&format!("op_{n}"), s.by_op[i]);
        }
    }
    out.distinct = d.into_iter().collect();
}

fn hunt(a: &Args, cfgs: &[Config], prop: u32) {
    let (seed, shard, shards) = (a.num("seed", 1), a.num("shard", 0), a.num("shards", 1));
    let secs = a.num("secs", 10) as f64;
    let deep = a.str("tier", "quick") == "thorough";
    let outp = a.str("out", "");
    let j = Journal::new(&a.str("journal", ""));
    let p = plan(prop);
    let mut out = Output::default();
    let mut stats = Stats::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut seen_msgs: HashSet<String> = HashSet::new();
    let full_upto = 24;
    let mut cfg_hist = vec![0u64; cfgs.len()];
    let mut run = |c: &Config, kind: &str, ops: &[Op], full: usize, out: &mut Output, distinct: &mut HashSet<u64>| {
        let mut w = p.watch;
        if kind == "walk" {
            w.hints = w.hints && prop == 10;
        }
        let mut r = Run::new(c, p.want, w);
        r.full_upto = full;
        r.distinct = Some(distinct);
        let res = r.exec(ops);
        stats.add(&r.stats);
        if let Err(f) = res {
            // one report per kind of message and composition
            let key = format!("{}{}", c.name, f.msg.split(':').next().unwrap_or(""));
            if seen_msgs.insert(key) {
                let (small, f2) = shrink(c, p.want, w, full, ops, &f, 6.0);
                out.violations.push(Violation {
                    what: f2.msg.clone(),
                    replay: replay_text("history", prop, c.name, full, &small, &f2.msg),
                });
            }
        }
    };
    // 1. every edge of small universes, every composition
    let wshards = a.num("walk-shards", shards);
    let mut walks = 0u64;
    if p.walk > 0 {
        let reps = a.num("walks", 1);
        let n = a.num("walk-keys", p.walk as u64) as usize;
        for rep in 0..reps {
            for (i, c) in cfgs.iter().enumerate() {
                if (i as u64 + rep * cfgs.len() as u64) % wshards != shard % wshards || c.heavy > 1 {
                    continue;
                }
                if prop == 8 && !c.len || prop == 18 || out.violations.len() > 3 {
                    continue;
                }
                let mut rng = Rng::new(mix2(mix2(seed, hash_str(c.name)), 77 + rep));
                let u = gen::universe(&mut rng, c.bits, n);
                let ops = gen::exhaustive(&mut rng, &u);
                j.set(format!("#veb-replay case\n#prop C{prop:02}\n#cfg {}\n#walk seed {seed} rep {rep} keys {n}", c.name));
                run(c, "walk", &ops, 64, &mut out, &mut distinct);
                cfg_hist[i] += 1;
                walks += 1;
                if walks == 1 {
                    out.samples.push(format!("walk over all subsets of {:x?} in {} ({} ops)", u, c.name, ops.len()));
                }
            }
        }
    }
    out.count("subset_walks", walks);
    // 1b. every subtree of the top level at once
    let multi = a.num("multitude", 0);
    if multi > 0 {
        let cs: Vec<&Config> = crowdable(cfgs).filter(|c| (!matches!(prop, 8 | 10) || c.len) && (prop != 18 || c.clone)).collect();
        let big: Vec<&Config> = cs.iter().copied().filter(|c| c.bits >= 24).collect();
        let small: Vec<&Config> = cs.iter().copied().filter(|c| c.bits < 24).collect();
        let mut todo: Vec<&Config> = Vec::new();
        for i in 0..multi {
            let at = (seed + shard % 4 + 4 * i) as usize;
            // the ready-made 32-bit trees first
            let heavy: Vec<&Config> = big.iter().copied().filter(|c| c.heavy > 1).collect();
            if !heavy.is_empty() && shard % 4 < 2 {
                todo.push(heavy[(at / 2 + i as usize) % heavy.len()]);
            } else if !big.is_empty() {
                todo.push(big[at % big.len()]);
            }
            for k in 0..8usize {
                if !small.is_empty() {
                    todo.push(small[(at * 8 + k) % small.len()]);
                }
            }
        }
        for c in todo {
            let mut rng = Rng::new(mix2(mix2(seed, hash_str(c.name)), 99));
            let ops = gen::multitude(&mut rng, c.bits);
            j.set(format!("#veb-replay case\n#prop C{prop:02}\n#cfg {}\n#multitude seed {seed}", c.name));
            run(c, "multitude", &ops, 2, &mut out, &mut distinct);
            out.count("trees_with_every_subtree", 1);
            out.max("subtrees_at_once", 1 << (c.bits - c.bits.div_ceil(2).max(c.bits.saturating_sub(16))));
        }
    }
    // 2. generated histories
    let mut idx = shard;
    let mut cases = 0u64;
    let max = a.num("cases", u64::MAX);
    let t0 = out.cpu();
    while out.cpu() - t0 < secs && idx < max && out.violations.len() <= 3 {
        let mut rng = Rng::new(mix2(mix2(seed, 1000 + prop as u64), idx));
        let c = pick_cfg(&mut rng, cfgs, idx.wrapping_mul(7), prop);
        let (kind, ops) = make_case(&mut rng, c, &p, deep);
        j.set(format!("#veb-replay case\n#prop C{prop:02}\n#cfg {}\n#seed {seed}\n#idx {idx}\n#deep {}", c.name, deep as u8));
        let full = if kind == "scenario" { 8 } else { full_upto };
        run(c, kind, &ops, full, &mut out, &mut distinct);
        if out.samples.len() < 3 && kind == "churn" && ops.len() < 40 {
            let t: Vec<String> = ops.iter().take(25).map(|o| o.text()).collect();
            out.samples.push(format!("{}: {}", c.name, t.join("; ")));
        }
        cfg_hist[cfgs.iter().position(|d| d.name == c.name).unwrap()] += 1;
        cases += 1;
        idx += shards;
    }
    out.count("generated_histories", cases);
    if prop == 26 {
        let (calls, audits) = vebchecks::boundary();
        out.count("calls_across_watched_boundaries", calls);
        out.count("summaries_compared_with_collections", audits);
    }
    out.max("compositions_driven_by_one_process", cfg_hist.iter().filter(|n| **n > 0).count() as u64);
    fill(&mut out, &stats, distinct);
    out.write(&outp);
}

/// C13: the same history against every composition of one key width, compared step by step.
fn lockstep(a: &Args, cfgs: &[Config]) {
    let (seed, shard, shards) = (a.num("seed", 1), a.num("shard", 0), a.num("shards", 1));
    let secs = a.num("secs", 10) as f64;
    let deep = a.str("tier", "quick") == "thorough";
    let j = Journal::new(&a.str("journal", ""));
    let mut out = Output::default();
    let mut stats = Stats::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut groups: Vec<Vec<&Config>> = Vec::new();
    for c in cfgs {
        match groups.iter_mut().find(|g| g[0].bits == c.bits) {
            Some(g) => g.push(c),
            None => groups.push(vec![c]),
        }
    }
    let groups: Vec<_> = groups.into_iter().filter(|g| g.len() > 1).collect();
    let w = Watch { hints: false, ledger: false, ..Watch::all() };
    let mix = Mix { probe: 10, muts: 6, iter: 6, monad: 4, clear: 1, ..Mix::default() };
    let p = Plan { want: 0, watch: w, mix, medium: 8, scenario: 3, walk: 0 };
    let mut idx = shard;
    let mut pairs = 0u64;
    // widest key for which to have every subtree present
    let multi = a.num("multitude", 0);
    let t0 = out.cpu();
    while out.cpu() - t0 < secs && out.violations.len() <= 3 {
        let mut rng = Rng::new(mix2(mix2(seed, 13), idx));
        let mut g = &groups[(idx / shards) as usize % groups.len()];
        // the first of each process: every subtree of the top level present
        let crowd = multi > 0 && idx == shard;
        if crowd {
            let gs: Vec<_> = groups.iter().filter(|g| (8..=multi as u32).contains(&g[0].bits) && g.iter().any(|c| c.interior)).collect();
            g = gs[(shard + seed) as usize % gs.len()];
        }
        let lead = g[0];
        let (_, ops) = if crowd {
            out.count("trees_with_every_subtree", g.len() as u64);
            ("multitude", gen::multitude(&mut rng, lead.bits))
        } else if (idx / shards) % 29 == 0 {
            let u = gen::universe(&mut rng, lead.bits, 6);
            ("walk", gen::exhaustive(&mut rng, &u))
        } else {
            make_case(&mut rng, lead, &p, deep)
        };
        let exec = |c: &Config, ops: &[Op], stats: &mut Stats, d: Option<&mut HashSet<u64>>| {
            j.set(replay_text("history", 13, c.name, 24, ops, "lockstep"));
            let mut r = Run::new(c, 0, w);
            r.transcript = Some(Vec::new());
            r.distinct = d;
            if ops.len() > 10_000 {
                r.full_upto = 2;
            }
            let _ = r.exec(ops);
            stats.add(&r.stats);
            r.transcript.unwrap()
        };
        let light = ops.len() < 60;
        let mut base: Option<(&Config, Vec<Log>)> = None;
        let mut vbase: Option<(&Config, Vec<Log>)> = None;
        for c in g.iter() {
            if crowd && (c.heavy > 1 || c.name.contains("collide")) || c.heavy > 1 && !(light && rng.chance(1, c.heavy / 2)) {
                continue;
            }
            let tr = exec(c, &ops, &mut stats, Some(&mut distinct));
            let mut cmp = |b: &mut Option<(&'_ Config, Vec<Log>)>, col: usize| -> Option<(String, usize)> {
                let (bc, bt) = b.as_ref()?;
                pairs += 1;
                let d = (0..tr.len().max(bt.len())).find(|i| tr.get(*i).map(|l| l[col]) != bt.get(*i).map(|l| l[col]))?;
                Some((bc.name.to_string(), d))
            };
            let mut diff = cmp(&mut base, 0).map(|d| (d, 0));
            if diff.is_none() && c.vmask == !0 {
                diff = cmp(&mut vbase, 1).map(|d| (d, 1));
            }
            if let Some(((other, at), col)) = diff {
                // shrink on "these two still differ"
                let oc = g.iter().find(|x| x.name == other).unwrap();
                let differs = |o: &[Op]| {
                    let mut s = Stats::default();
                    let (x, y) = (exec(c, o, &mut s, None), exec(oc, o, &mut s, None));
                    x.len() != y.len() || x.iter().zip(&y).any(|(p, q)| p[col] != q[col])
                };
                let mut cur = ops[..(at + 1).min(ops.len())].to_vec();
                let mut i = 0;
                let t0 = out.elapsed();
                while i < cur.len() && out.elapsed() - t0 < 8.0 {
                    let mut o = cur.clone();
                    o.remove(i);
                    if differs(&o) {
                        cur = o
                    } else {
                        i += 1
                    }
                }
                let msg = format!("{} and {} answer differently at step {} of the history: {}", c.name, other, cur.len(), cur.last().map(|o| o.text()).unwrap_or_default());
                let mut t = replay_text("lockstep", 13, c.name, 24, &cur, &msg);
                t = t.replacen("#msg", &format!("#other {other}\n#msg"), 1);
                out.violations.push(Violation { what: msg, replay: t });
                break;
            }
            if base.is_none() {
                base = Some((c, tr.clone()));
            }
            if vbase.is_none() && c.vmask == !0 {
                vbase = Some((c, tr));
            }
        }
        if out.samples.len() < 3 && ops.len() < 40 {
            let t: Vec<String> = ops.iter().take(25).map(|o| o.text()).collect();
            out.samples.push(format!("{} compositions of {} bits: {}", g.len(), lead.bits, t.join("; ")));
        }
        idx += shards;
    }
    out.count("transcript_pairs_compared", pairs);
    out.count("key_widths", groups.len() as u64);
    fill(&mut out, &stats, distinct);
    out.write(&a.str("out", ""));
}

/// C25: digests of everything observed, per case, for comparison between builds and targets.
/// Any panic is a violation in its own right.
fn digest(a: &Args, cfgs: &[Config]) {
    let seed = a.num("seed", 1);
    let (from, to) = (a.num("from", 0), a.num("to", 100));
    let small = a.num("small", 0) == 1;
    let shards = a.num("shards", 1);
    let shard = a.num("shard", 0);
    let j = Journal::new(&a.str("journal", ""));
    let w = Watch { ledger: true, lean: small, ..Watch::all() };
    let mix = Mix { handles: if small { 2 } else { 0 }, probe: 8, muts: 6, iter: 8, monad: 4, clone: 4, clear: 1, ..Mix::default() };
    let p = Plan { want: tag(25), watch: w, mix, medium: 8, scenario: 3, walk: 0 };
    let mut out = Output::default();
    let mut stats = Stats::default();
    let mut distinct = HashSet::new();
    let cs: Vec<&Config> = cfgs.iter().filter(|c| !small || c.small).collect();
    let mut lines = String::new();
    // trees with every subtree of the top level present
    let (big, mut ms): (Vec<&Config>, Vec<&Config>) = crowdable(cfgs).partition(|c| c.bits >= 24);
    let multi = if small { 0 } else { a.num("multitude", 0) };
    // some of the wide ones, at least half of them ready-made
    for i in 0..multi as usize {
        let ready: Vec<&Config> = big.iter().copied().filter(|c| c.heavy > 1).collect();
        let from = if i % 2 == 0 && !ready.is_empty() { &ready } else { &big };
        ms.push(from[(seed as usize + i / 2) % from.len()]);
    }
    let multi = if multi > 0 { ms.len() as u64 } else { 0 };
    for idx in (from..to).chain(MULTI..MULTI + multi) {
        if idx % shards != shard {
            continue;
        }
        let mut rng = Rng::new(mix2(mix2(seed, 25), idx));
        let mut c = cs[(idx as usize).wrapping_mul(if small { 31 } else { 7 }) % cs.len()];
        if c.heavy > 1 && !rng.chance(1, 20) {
            c = cs[0];
        }
        if idx >= MULTI {
            c = ms[(idx - MULTI) as usize];
        }
        let ops = if idx >= MULTI {
            out.count("trees_with_every_subtree", 1);
            gen::multitude(&mut rng, c.bits)
        } else if small {
            let (len, np) = (6 + rng.below(16), 2 + rng.below(8));
            gen::history(&mut rng, c, &p.mix, len, np, (1, 5))
        } else {
            make_case(&mut rng, c, &p, false).1
        };
        if cfg!(miri) {
            j.set(format!("#veb-replay digest\n#cfg {}\n#run mon --mode digest --small 1 --seed {seed} --from {idx} --to {}", c.name, idx + 1));
        } else if idx >= MULTI {
            j.set(format!("#veb-replay digest\n#cfg {}\n#run mon --mode digest --seed {seed} --from 0 --to 0 --multitude {} --shard {shard} --shards {shards}", c.name, a.num("multitude", 0)));
        } else {
            j.set(replay_text("history", 25, c.name, 24, &ops, "while computing digests"));
        }
        let mut r = Run::new(c, p.want, w);
        r.digest = Some([idx; 3]);
        if small {
            r.full_upto = 3;
        }
        if idx >= MULTI {
            r.full_upto = 2;
        }
        r.distinct = Some(&mut distinct);
        let res = r.exec(&ops);
        let d = r.digest.unwrap();
        stats.add(&r.stats);
        if a.has("time") {
            eprintln!("{idx} {} {} ops {:.2}s", c.name, ops.len(), out.elapsed());
        }
        lines.push_str(&format!("{idx} {} {:016x}{:016x}{:016x}\n", c.name, d[0], d[1], d[2]));
        if let Err(f) = res {
            if out.violations.len() < 4 {
                let (small, f2) = shrink(c, p.want, w, 24, &ops, &f, 5.0);
                out.violations.push(Violation { what: f2.msg.clone(), replay: replay_text("history", 25, c.name, 24, &small, &f2.msg) });
            }
        }
        if out.samples.len() < 3 && ops.len() < 30 {
            let t: Vec<String> = ops.iter().take(25).map(|o| o.text()).collect();
            out.samples.push(format!("{}: {}", c.name, t.join("; ")));
        }
    }
    fill(&mut out, &stats, distinct);
    let path = a.str("out", "");
    if path.is_empty() {
        print!("{lines}");
        for v in &out.violations {
            println!("VIOL {}", v.what);
        }
        println!("ops {} obs {}", stats.ops, stats.observations);
    } else {
        std::fs::write(format!("{path}.digests"), lines).unwrap();
        out.write(&path);
    }
}

fn replay(a: &Args, cfgs: &[Config]) -> i32 {
    let txt = std::fs::read_to_string(a.str("replay", "")).expect("replay file");
    let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(&format!("#{k} "))).unwrap_or("").trim().to_string();
    let prop: u32 = get("prop").trim_start_matches('C').parse().unwrap();
    let c = cfgs.iter().find(|c| c.name == get("cfg")).expect("composition");
    let full = get("full_upto").parse().unwrap_or(24);
    let p = plan(prop);
    let ops: Vec<Op> = match get("veb-replay").as_str() {
        "case" => {
            let seed: u64 = get("seed").parse().unwrap_or(1);
            if let Ok(idx) = get("idx").parse::<u64>() {
                let mut rng = Rng::new(mix2(mix2(seed, 1000 + prop as u64), idx));
                let c2 = pick_cfg(&mut rng, cfgs, idx.wrapping_mul(7), prop);
                assert_eq!(c2.name, c.name);
                make_case(&mut rng, c, &p, get("deep") == "1").1
            } else if !get("multitude").is_empty() {
                let seed: u64 = get("multitude").split_whitespace().last().and_then(|x| x.parse().ok()).unwrap_or(1);
                gen::multitude(&mut Rng::new(mix2(mix2(seed, hash_str(c.name)), 99)), c.bits)
            } else {
                let wk = get("walk");
                let f: Vec<u64> = wk.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                let mut rng = Rng::new(mix2(mix2(f[0], hash_str(c.name)), 77 + f[1]));
                let u = gen::universe(&mut rng, c.bits, f[2] as usize);
                gen::exhaustive(&mut rng, &u)
            }
        }
        _ => txt.lines().filter(|l| !l.starts_with('#')).filter_map(Op::parse).collect(),
    };
    if get("veb-replay") == "lockstep" {
        let oc = cfgs.iter().find(|c| c.name == get("other")).expect("composition");
        let w = Watch { hints: false, ledger: false, ..Watch::all() };
        let ex = |c: &Config| {
            let mut r = Run::new(c, 0, w);
            r.transcript = Some(vec![]);
            let _ = r.exec(&ops);
            r.transcript.unwrap()
        };
        let (x, y) = (ex(c), ex(oc));
        if x.len() != y.len() || x.iter().zip(&y).any(|(p, q)| p[0] != q[0] || c.vmask == oc.vmask && p[1] != q[1]) {
            println!("reproduced: {} and {} differ", c.name, oc.name);
            return 1;
        }
        println!("not reproduced");
        return 0;
    }
    let mut w = p.watch;
    if prop == 25 {
        w = Watch::all();
    }
    let mut r = Run::new(c, p.want, w);
    r.full_upto = full;
    match r.exec(&ops) {
        Err(f) => {
            println!("reproduced: {}", f.msg);
            1
        }
        Ok(()) => {
            println!("not reproduced");
            0
        }
    }
}

fn main() {
    let a = Args::parse();
    quiet_panics();
    let cfgs = all();
    if !cfg!(miri) {
        watchdog(20.0);
    }
    if a.has("replay") {
        std::process::exit(replay(&a, &cfgs));
    }
    match a.str("mode", "hunt").as_str() {
        "hunt" => {
            let prop: u32 = a.str("prop", "C01").trim_start_matches('C').parse().unwrap();
            hunt(&a, &cfgs, prop)
        }
        "lockstep" => lockstep(&a, &cfgs),
        "digest" => digest(&a, &cfgs),
        "list" => {
            for c in &cfgs {
                println!("{} bits={} clone={} len={} tok={}", c.name, c.bits, c.clone, c.len, c.tok);
            }
        }
        m => panic!("mode {m}"),
    }
}
