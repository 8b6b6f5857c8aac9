#![feature(alloc_error_hook)]
#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, dead_code)]
mod case;
mod oracle;
mod rng;
mod rt;
mod run;
mod worlds;

use run::*;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::sync::atomic::Ordering::SeqCst;

#[global_allocator]
static A: rt::SimAlloc = rt::SimAlloc;

const VERIF: &str = "/verif";

fn def(id: &str) -> Option<&'static Def> {
    worlds::all().iter().find(|d| d.id == id)
}
fn ops_of(id: &str) -> Option<&'static [&'static str]> {
    def(id).map(|d| d.ops)
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn known(id: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{VERIF}/known-findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        // known: property=<id> sig=<exact part of the violation message> || <what fails>
        if let Some(r) = l.strip_prefix("known: ") {
            if let Some(r) = r.strip_prefix(&format!("property={id} sig=")) {
                let (a, b) = r.split_once(" || ").unwrap_or((r, r));
                v.push(Known { sig: a.into(), text: b.into() });
            }
        }
    }
    v
}

fn setup() {
    unsafe {
        // no address-space randomisation: one seed is one execution, addresses included
        if std::env::var_os("DST_NOASLR").is_none() {
            let p = rt::personality(0xffffffff);
            if p >= 0 && rt::personality(p as u64 | 0x0040000) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe")
                    .args(std::env::args_os().skip(1))
                    .env("DST_NOASLR", "1")
                    .exec();
                eprintln!("re-exec: {e}");
            }
        }
        rt::setrlimit(4, &[0, 0]); // no core files
    }
    rt::SHM.store(rt::shared(), SeqCst);
    rt::COV.store(rt::shared_bytes(rt::COVMAX), SeqCst);
    rt::install_panic_hook();
}
fn ncov() -> u64 {
    let n = rt::NGUARDS.load(SeqCst) as usize;
    let p = rt::COV.load(SeqCst);
    (1..=n.min(rt::COVMAX - 1)).filter(|i| unsafe { *p.add(*i) } != 0).count() as u64
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    setup();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("replay") => replay(&a[2], a.get(3).is_some()),
        Some("show") => show(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()),
        Some("determinism") => determinism(a.get(2).map(|s| s.as_str()), a.get(3).and_then(|x| x.parse().ok()).unwrap_or(400)),
        Some("hashes") => hashes(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap()),
        Some("list") => {
            for d in worlds::all() {
                println!("{} ops={} probes={}", d.id, d.ops.len(), d.probes.len());
            }
            0
        }
        _ => {
            eprintln!("usage: check ID | replay FILE | show ID SEED INDEX | determinism [ID [N]]");
            2
        }
    };
    std::process::exit(code);
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|x| x as u64).unwrap_or(d)
}

fn check(id: &str) -> i32 {
    let Some(d) = def(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let seed = env_u64("VERIF_SEED", 1);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
    let thorough = tier == "thorough";
    let n = env_u64("DST_RUNS", if thorough { d.thorough_runs } else { d.quick_runs });
    let cap = env_u64("DST_CAP_S", if thorough { 780 } else { 240 }) as f64;
    let workers = env_u64("DST_WORKERS", cpus().len().clamp(1, 8) as u64) as usize;
    println!("seed {seed} tier {tier} property {id} runs {n} workers {workers}");
    let kn = known(id);
    let s = search(d, seed, 0, n, workers, cap, &kn);
    if let Some(e) = &s.error {
        eprintln!("HARNESS ERROR {id}: {e}");
        if s.violation.is_none() {
            return 2;
        }
    }
    for (k, c) in &s.known {
        println!("KNOWN-FINDING: property={id} {} ({c} runs)", kn[*k].text);
    }
    // determinism probe: a sample of this batch is executed again, with another worker count
    let m = 64.min(n);
    let s2 = if s.violation.is_none() { Some(search(d, seed, 0, m, 3.min(workers.max(1)), cap, &kn)) } else { None };
    let mut mism = 0;
    if let Some(s2) = &s2 {
        for i in 0..m as usize {
            if s.loghashes[i] != 0 && (s.loghashes[i] != s2.loghashes[i] || s.ilhashes[i] != s2.ilhashes[i]) {
                mism += 1;
            }
        }
    }
    let (cov, tot) = (ncov(), rt::NGUARDS.load(SeqCst));
    let lg: BTreeSet<u64> = (0..s.loghashes.len()).filter(|i| s.ilhashes[*i] != 0).map(|i| s.loghashes[i]).collect();
    let il: BTreeSet<u64> = s.ilhashes.iter().copied().filter(|x| *x != 0).collect();
    let viol = s.violation.is_some();
    let sample: Vec<String> = (0..2u64).map(|i| jstr(&gen_case(d, seed, i * 7 + 1).text(d.ops))).collect();
    let mut cov_s = String::new();
    let _ = write!(
        cov_s,
        "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"seeds_explored\": {}, \"runs_per_hour\": {}, \"simulated_seconds\": {:.3}, \"operations\": {}, \"basic_blocks_executed\": {}, \"context_switches\": {}, \"threaded_runs\": {}, \"distinct_interleavings\": {}, \"distinct_interleavings_measure\": \"hash of the sequence of (client, operation) starts and (client, basic block) suspension points of non-trivial runs\", \"library_edges_hit\": {}, \"library_edges_total\": {}, \"determinism_runs_repeated\": {}, \"determinism_mismatches\": {}, ",
        s.runs, lg.len(), jstr(d.rule), sample.join(", "), s.runs,
        (s.runs as f64 / s.wall.max(1e-9) * 3600.0) as u64, s.sim_ns as f64 * 1e-9, s.ops, s.steps, s.switches,
        s.threaded, il.len(), cov, tot, s2.as_ref().map(|x| x.runs).unwrap_or(0), mism
    );
    let mut fs = vec![];
    for k in 0..rt::NF {
        if !rt::FAULTS[k].is_empty() {
            fs.push(format!("{}: {}", jstr(rt::FAULTS[k]), s.faults[k]));
        }
    }
    for k in 0..12 {
        fs.push(format!("{}: {}", jstr(case::NETK[k]), s.net[k]));
    }
    let pr: Vec<String> = d.probes.iter().enumerate().map(|(i, p)| format!("{}: {}", jstr(p), s.probes[i])).collect();
    let _ = write!(
        cov_s,
        "\"faults_fired\": {{{}}}, \"probes\": {{{}}}, \"real_components\": [{}], \"stub_components\": [{}]",
        fs.join(", "), pr.join(", "),
        d.real.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "),
        d.stub.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", ")
    );
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
        jstr(id), jstr(tier), seed as i64, cov_s,
        [
            "the library is compiled from /repo's working tree at opt-level 0 with SanitizerCoverage and --cfg geos_sim",
            "seeded sampling of schedules, histories and faults: a clean batch is evidence, not proof",
            "pre-emption happens at basic-block boundaries of library code (sequentially consistent memory)",
        ].iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "),
        s.wall, viol as u32
    );
    let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
    if let Err(e) = std::fs::write(format!("{VERIF}/evidence/{id}.json"), &ev) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    println!(
        "{id}: {} runs in {:.1}s ({} threaded), {} ops, {} distinct non-trivial, {} interleavings, edges {}/{}, faults {:?}",
        s.runs, s.wall, s.threaded, s.ops, lg.len(), il.len(), cov, tot, s.faults
    );
    for (i, p) in d.probes.iter().enumerate() {
        println!("  probe {p}: {}", s.probes[i]);
    }
    if mism > 0 {
        println!("note: {mism} of the repeated runs gave another event log");
    }
    if let Some(ix) = s.violation {
        return report(d, seed, ix, &s.message);
    }
    if s.error.is_some() {
        return 2;
    }
    println!("{id}: held on everything explored");
    0
}

/// long lines are complete in the replay file only
fn short(s: &str) -> String {
    match s.char_indices().nth(1500) {
        Some((k, _)) => format!("{} ... (cut)", &s[..k]),
        None => s.to_string(),
    }
}
fn report(d: &Def, seed: u64, ix: u64, first: &str) -> i32 {
    let c = gen_case(d, seed, ix);
    let o = run_case(d, &c);
    let dir = format!("{VERIF}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-seed{}-run{}.replay", d.id, seed, ix);
    if o.status != 2 {
        // the run failed in the batch but not here: report the seed itself as the replay
        let _ = std::fs::write(&path, c.text(d.ops));
        println!("run {ix} violated the property in the batch ({}); re-running gave status {}: {}", short(first), o.status, o.msg);
        println!("VIOLATION property={} replay={}", d.id, path);
        return 1;
    }
    let cls = class(&o.msg);
    println!("violation in run {ix} (seed {seed}): {}", short(&o.msg));
    let (m, trials) = minimise(d, &c, &cls, 30.0);
    let om = run_case(d, &m);
    let mut t = m.text(d.ops);
    let _ = write!(t, "# violation: {}\n# minimised from {} to {} items in {} trial runs\n", om.msg.replace('\n', " "), c.items.len(), m.items.len(), trials);
    let _ = std::fs::write(&path, &t);
    println!("minimised: {} -> {} items, {} trials: {}", c.items.len(), m.items.len(), trials, short(&om.msg));
    for l in t.lines() {
        println!("{}", short(l));
    }
    // confirm in a fresh process
    let ok = std::process::Command::new("/proc/self/exe").args(["replay", &path, "quiet"]).env_remove("DST_NOASLR").status().map(|s| s.code() == Some(1)).unwrap_or(false);
    println!("replay in a fresh process: {}", if ok { "reproduced" } else { "NOT reproduced" });
    println!("VIOLATION property={} replay={}", d.id, path);
    1
}

fn replay(path: &str, quiet: bool) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    match case::Case::parse(&t, &|id| ops_of(id)) {
        Err(e) => {
            eprintln!("{e}");
            2
        }
        Ok(c) => {
            let d = def(&c.prop).unwrap();
            let o = run_case(d, &c);
            if !quiet {
                println!("status {} {} loghash {:x} ilhash {:x} ops {} steps {} faults {:?}", o.status, o.msg, o.loghash, o.ilhash, o.ops, o.steps, o.faults);
            }
            match o.status {
                1 => 0,
                2 => {
                    println!("VIOLATION property={} replay={}", c.prop, path);
                    1
                }
                _ => 2,
            }
        }
    }
}

fn show(id: &str, seed: u64, ix: u64) -> i32 {
    let d = def(id).unwrap();
    let c = gen_case(d, seed, ix);
    print!("{}", c.text(d.ops));
    let o = run_case(d, &c);
    println!("status {} {} nontrivial {} steps {} faults {:?}", o.status, o.msg, o.nontrivial, o.steps, o.faults);
    0
}

fn hashes(id: &str, seed: u64, n: u64, workers: usize) -> i32 {
    let d = def(id).unwrap();
    let s = search(d, seed, 0, n, workers, 1e9, &[]);
    for i in 0..n as usize {
        println!("{i} {:016x} {:016x}", s.loghashes[i], s.ilhashes[i]);
    }
    0
}

/// Event logs of the same seeds, in fresh processes and at several worker counts, must be equal.
fn determinism(id: Option<&str>, n: u64) -> i32 {
    let mut bad = 0;
    for d in worlds::all().iter().filter(|d| id.is_none_or(|x| x == "all" || x == d.id)) {
        let mut outs = vec![];
        for seed in [1u64, 77] {
            let mut per = vec![];
            for w in [1usize, 3, 8, 8] {
                let o = std::process::Command::new("/proc/self/exe")
                    .args(["hashes", d.id, &seed.to_string(), &n.to_string(), &w.to_string()])
                    .env_remove("DST_NOASLR")
                    .output()
                    .expect("spawn");
                per.push(o.stdout);
            }
            outs.push(per);
        }
        for per in &outs {
            let same = per.iter().all(|x| *x == per[0]);
            if !same {
                bad += 1;
            }
            println!("{} {} runs x {} executions: {}", d.id, n, per.len(), if same { "identical event logs" } else { "DIFFERENT" });
        }
    }
    (bad > 0) as i32
}
