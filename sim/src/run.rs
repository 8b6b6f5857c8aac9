//! Executes cases in forked children, searches over seeds with a worker pool, minimises.
use crate::case::{Case, Item, RESUME};
use crate::rng::{hash_str, mix, Rng};
use crate::rt::*;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::SeqCst};

pub struct Def {
    pub id: &'static str,
    pub ops: &'static [&'static str],
    pub gen: fn(&mut Rng, u64) -> Case,
    pub make: fn(&Case) -> Box<dyn World>,
    pub clients: fn(&Case) -> usize,
    /// evaluates one item in a pristine process (history independence); output via `cx.out`
    pub reference: Option<fn(&Cx, &Item)>,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub probes: &'static [&'static str],
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub status: u32,
    pub msg: String,
    pub loghash: u64,
    pub ilhash: u64,
    pub steps: u64,
    pub switches: u64,
    pub ops: u64,
    pub nontrivial: bool,
    pub faults: [u64; NF],
    pub probes: Vec<u64>,
}

pub static REFS: AtomicPtr<Vec<Vec<u64>>> = AtomicPtr::new(std::ptr::null_mut());
pub fn refs() -> &'static Vec<Vec<u64>> {
    unsafe { &*REFS.load(SeqCst) }
}

/// the wall clock ran out: a deadlock, or a machine too busy to give the run any time
pub const HUNG: &str = "no-progress: the run hung outside instrumented code";

/// Runs `f` in a forked child and reads what it left in shared memory.
fn in_child(secs: u32, f: impl FnOnce()) -> Outcome {
    let s = shm();
    s.status = 0;
    s.msg_len = 0;
    s.loghash = 0;
    s.ilhash = 0;
    s.steps = 0;
    s.switches = 0;
    s.ops = 0;
    s.nontrivial = 0;
    s.faults = [0; NF];
    s.probes = [0; NPROBE];
    s.out_len = 0;
    unsafe {
        let pid = fork();
        if pid < 0 {
            return Outcome { status: 3, msg: "fork failed".into(), ..Default::default() };
        }
        if pid == 0 {
            prctl(1, 9, 0, 0, 0); // die with the parent
            alarm(secs);
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() && s.status == 0 {
                end_panic(&last_panic());
            }
            _exit(0);
        }
        let mut st = 0i32;
        while waitpid(pid, &mut st, 0) != pid {}
        let sig = st & 0x7f;
        if s.status == 0 {
            let m = match sig {
                14 => HUNG,
                6 => "abort: the process aborted (panic while unwinding, or memory corruption)",
                11 | 7 => "crash: the process died of a memory fault or stack overflow",
                9 => "killed",
                _ => "exit: the library ended the process",
            };
            s.status = if sig == 9 { 3 } else { 2 };
            let b = m.as_bytes();
            s.msg[..b.len()].copy_from_slice(b);
            s.msg_len = b.len() as u32;
        }
    }
    let s = shm();
    Outcome {
        status: s.status,
        msg: String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned(),
        loghash: s.loghash,
        ilhash: s.ilhash,
        steps: s.steps,
        switches: s.switches,
        ops: s.ops,
        nontrivial: s.nontrivial != 0,
        faults: s.faults,
        probes: s.probes.to_vec(),
    }
}

pub fn run_case(d: &Def, c: &Case) -> Outcome {
    run_case_for(d, c, 60)
}
pub fn run_case_for(d: &Def, c: &Case, secs: u32) -> Outcome {
    if let Some(rf) = d.reference {
        let mut all: Vec<Vec<u64>> = Vec::with_capacity(c.items.len());
        let mut seen: std::collections::HashMap<(usize, &[i64], Vec<u64>), usize> = Default::default();
        for (n, it) in c.items.iter().enumerate() {
            if it.op == RESUME {
                all.push(vec![]);
                continue;
            }
            // equal calls have one reference
            let key = (it.op, it.i.as_slice(), it.f.iter().map(|x| x.to_bits()).collect::<Vec<u64>>());
            if let Some(k) = seen.get(&key) {
                let v = all[*k].clone();
                all.push(v);
                continue;
            }
            seen.insert(key, n);
            let o = in_child(secs, || ref_child(c, it, rf));
            if o.status != 1 {
                return o;
            }
            let s = shm();
            all.push(s.out[..s.out_len as usize].to_vec());
        }
        let old = REFS.swap(Box::into_raw(Box::new(all)), SeqCst);
        if !old.is_null() {
            drop(unsafe { Box::from_raw(old) });
        }
    }
    in_child(secs, || {
        let w = (d.make)(c);
        run_child(c, w, (d.clients)(c).clamp(1, MAXC));
    })
}
fn ref_child(c: &Case, it: &Item, rf: fn(&Cx, &Item)) {
    let cx = Cx { client: 0 };
    CTL.with(|k| {
        k.budget.set(STEP_BUDGET);
        k.stop_at.set(STEP_BUDGET);
    });
    cx.set_entropy(c.entropy, 0);
    cx.jump_clock(c.clock);
    rf(&cx, it);
    if shm().status == 0 {
        finish_status(1, "");
    }
}

pub fn gen_case(d: &Def, seed: u64, index: u64) -> Case {
    let mut rng = Rng::new(mix(mix(seed, hash_str(d.id)), index));
    let mut c = (d.gen)(&mut rng, index);
    c.prop = d.id.into();
    c.seed = seed;
    c.index = index;
    c
}

// ---------------------------------------------------------------- search
#[repr(C)]
pub struct WStat {
    pub runs: u64,
    pub ops: u64,
    pub steps: u64,
    pub switches: u64,
    pub nontrivial: u64,
    pub threaded: u64,
    pub sim_ns: u64,
    pub known: u64,
    pub faults: [u64; NF],
    pub net: [u64; 12],
    pub probes: [u64; NPROBE],
    pub harness_err: u64,
    pub viol_at: u64,
    pub err_msg: [u8; 1024],
}
pub struct Search {
    pub runs: u64,
    pub ops: u64,
    pub steps: u64,
    pub switches: u64,
    pub nontrivial: u64,
    pub threaded: u64,
    pub sim_ns: u64,
    pub faults: [u64; NF],
    pub net: [u64; 12],
    pub probes: Vec<u64>,
    pub loghashes: Vec<u64>,
    pub ilhashes: Vec<u64>,
    pub violation: Option<u64>,
    pub message: String,
    pub error: Option<String>,
    pub wall: f64,
    pub known: Vec<(usize, u64)>,
}

pub struct Known {
    pub sig: String,
    pub text: String,
}

pub fn cpus() -> Vec<usize> {
    let mut m = [0u64; 16];
    unsafe { sched_getaffinity(0, 128, m.as_mut_ptr()) };
    (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect()
}

pub fn search(d: &Def, seed: u64, from: u64, n: u64, workers: usize, cap_s: f64, known: &[Known]) -> Search {
    let t0 = now_real();
    let stats: *mut [WStat; 64] = shared();
    let first: &AtomicU64 = unsafe { &*(shared::<AtomicU64>()) };
    first.store(u64::MAX, SeqCst);
    let logs = shared_bytes(((n + 1) * 16) as usize) as *mut [u64; 2];
    let kn: *mut [u64; 64] = shared();
    let cp = cpus();
    let mut pids = vec![];
    let workers = workers.min(64);
    for w in 0..workers {
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe {
                prctl(1, 9, 0, 0, 0);
                let mut m = [0u64; 16];
                let c = cp[w % cp.len()];
                m[c / 64] |= 1 << (c % 64);
                sched_setaffinity(0, 128, m.as_ptr());
            }
            SHM.store(shared(), SeqCst);
            let st = unsafe { &mut (*stats)[w] };
            let mut i = w as u64;
            while i < n {
                if i + from > first.load(SeqCst) || now_real() - t0 > cap_s {
                    break;
                }
                let c = gen_case(d, seed, from + i);
                let o = run_case(d, &c);
                st.runs += 1;
                st.ops += o.ops;
                st.steps += o.steps;
                st.switches += o.switches;
                st.sim_ns += c.sim_ns;
                st.nontrivial += o.nontrivial as u64;
                st.threaded += c.threads as u64;
                for k in 0..NF {
                    st.faults[k] += o.faults[k];
                }
                for k in 0..NPROBE {
                    st.probes[k] += o.probes[k];
                }
                for k in 0..c.net.len().min(12) {
                    st.net[k] += c.net[k];
                }
                unsafe {
                    *logs.add(i as usize) = [o.loghash | 1, if o.nontrivial { o.ilhash | 1 } else { 0 }];
                }
                // the wall clock proves nothing on a busy machine: ask again, with patience
                let o = if o.msg == HUNG { run_case_for(d, &c, 240) } else { o };
                if o.status == 2 {
                    let b = o.msg.as_bytes();
                    let m = b.len().min(1023);
                    st.err_msg[..m].copy_from_slice(&b[..m]);
                    if let Some(k) = known.iter().position(|k| o.msg.contains(&k.sig)) {
                        unsafe { (*kn)[k] += 1 };
                        st.known += 1;
                    } else {
                        st.viol_at = from + i;
                        first.fetch_min(from + i, SeqCst);
                        break;
                    }
                } else if o.status == 3 {
                    st.harness_err = from + i + 1;
                    let b = o.msg.as_bytes();
                    let m = b.len().min(1023);
                    st.err_msg[..m].copy_from_slice(&b[..m]);
                    break;
                }
                i += workers as u64;
            }
            unsafe { _exit(0) }
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { while waitpid(p, &mut st, 0) != p {} }
    }
    let mut s = Search {
        runs: 0, ops: 0, steps: 0, switches: 0, nontrivial: 0, threaded: 0, sim_ns: 0,
        faults: [0; NF], net: [0; 12], probes: vec![0; NPROBE], loghashes: vec![], ilhashes: vec![],
        violation: None, message: String::new(), error: None, wall: 0.0, known: vec![],
    };
    for w in 0..workers {
        let st = unsafe { &(*stats)[w] };
        s.runs += st.runs;
        s.ops += st.ops;
        s.steps += st.steps;
        s.switches += st.switches;
        s.nontrivial += st.nontrivial;
        s.threaded += st.threaded;
        s.sim_ns += st.sim_ns;
        for k in 0..NF {
            s.faults[k] += st.faults[k];
        }
        for k in 0..12 {
            s.net[k] += st.net[k];
        }
        for k in 0..NPROBE {
            s.probes[k] += st.probes[k];
        }
        if st.harness_err != 0 && s.error.is_none() {
            let e = st.err_msg.iter().position(|b| *b == 0).unwrap_or(0);
            s.error = Some(format!("run {}: {}", st.harness_err - 1, String::from_utf8_lossy(&st.err_msg[..e])));
        }
    }
    for i in 0..n as usize {
        let [a, b] = unsafe { *logs.add(i) };
        s.loghashes.push(a);
        s.ilhashes.push(b);
    }
    for k in 0..known.len().min(64) {
        let c = unsafe { (*kn)[k] };
        s.known.push((k, c));
    }
    let v = first.load(SeqCst);
    if v != u64::MAX {
        s.violation = Some(v);
        for w in 0..workers {
            let st = unsafe { &(*stats)[w] };
            if st.viol_at == v {
                let e = st.err_msg.iter().position(|b| *b == 0).unwrap_or(0);
                s.message = String::from_utf8_lossy(&st.err_msg[..e]).into_owned();
            }
        }
    }
    s.wall = now_real() - t0;
    s
}

// ---------------------------------------------------------------- minimisation
pub fn class(m: &str) -> String {
    m.split(':').next().unwrap_or("").to_string()
}

pub fn minimise(d: &Def, c0: &Case, cls: &str, budget_s: f64) -> (Case, u64) {
    let t0 = now_real();
    let mut best = c0.clone();
    let mut trials = 0u64;
    let fails = |c: &Case, trials: &mut u64| -> bool {
        *trials += 1;
        let o = run_case(d, c);
        o.status == 2 && class(&o.msg) == cls
    };
    let over = || now_real() - t0 > budget_s;
    loop {
        let before = best.clone();
        // 1. drop items, in chunks
        let mut sz = best.items.len().max(1);
        while sz >= 1 && !over() {
            let mut i = 0;
            while i < best.items.len() && !over() {
                let mut t = best.clone();
                let e = (i + sz).min(t.items.len());
                t.items.drain(i..e);
                if fails(&t, &mut trials) {
                    best = t;
                } else {
                    i += sz;
                }
            }
            sz /= 2;
        }
        // 2. simpler environment
        let mut envs: Vec<Case> = vec![];
        if best.threads {
            let mut t = best.clone();
            t.threads = false;
            t.items.retain(|x| x.op != RESUME);
            for x in &mut t.items {
                x.pre.clear();
            }
            envs.push(t);
        }
        if best.entropy_mode != 0 {
            let mut t = best.clone();
            t.entropy_mode = 0;
            envs.push(t);
        }
        if best.entropy != 1 {
            let mut t = best.clone();
            t.entropy = 1;
            envs.push(t);
        }
        if best.clock != 0 {
            let mut t = best.clone();
            t.clock = 0;
            envs.push(t);
        }
        for t in envs {
            if fails(&t, &mut trials) {
                best = t;
            }
        }
        // 3. drop faults and pre-emptions
        for i in 0..best.items.len() {
            if over() {
                break;
            }
            if best.items[i].oom > 0 {
                let mut t = best.clone();
                t.items[i].oom = 0;
                t.items[i].exhaust = false;
                if fails(&t, &mut trials) {
                    best = t;
                }
            }
            while !best.items[i].pre.is_empty() {
                let mut t = best.clone();
                t.items[i].pre.pop();
                if fails(&t, &mut trials) {
                    best = t;
                } else {
                    break;
                }
            }
        }
        // 4. simplify arguments
        for i in 0..best.items.len() {
            // drop argument tails
            let mut cut = best.items[i].f.len() / 2;
            while cut >= 1 && !over() {
                let mut t = best.clone();
                let l = t.items[i].f.len();
                if l < cut {
                    break;
                }
                t.items[i].f.truncate(l - cut);
                if fails(&t, &mut trials) {
                    best = t;
                } else {
                    cut /= 2;
                }
            }
            // drop coordinates in the middle, in chunks
            let mut sz = best.items[i].f.len() / 8;
            while sz >= 1 && !over() {
                let mut k = 0;
                while k < best.items[i].f.len() / 4 && !over() {
                    let mut t = best.clone();
                    let n = t.items[i].f.len() / 4;
                    t.items[i].f.drain(k * 4..(k + sz).min(n) * 4);
                    if fails(&t, &mut trials) {
                        best = t;
                    } else {
                        k += sz;
                    }
                }
                sz /= 2;
            }
            for j in 0..best.items[i].i.len() {
                for cand in [0i64, 1, 2, best.items[i].i[j] / 2, best.items[i].i[j] - 1] {
                    if over() || best.items[i].i[j].unsigned_abs() <= cand.unsigned_abs() {
                        continue;
                    }
                    let mut t = best.clone();
                    t.items[i].i[j] = cand;
                    if fails(&t, &mut trials) {
                        best = t;
                        break;
                    }
                }
            }
            for j in 0..best.items[i].f.len() {
                let v = best.items[i].f[j];
                for cand in [0.0, 1.0, 2.0, v.round(), (v / 2.0).round(), v / 2.0] {
                    if over() {
                        break;
                    }
                    let simpler = |x: f64| {
                        if x.is_nan() { return 1000 }
                        let t = format!("{:?}", x);
                        t.len() * 2 + (x < 0.0) as usize
                    };
                    if !(simpler(cand) < simpler(v)) {
                        continue;
                    }
                    let mut t = best.clone();
                    t.items[i].f[j] = cand;
                    if fails(&t, &mut trials) {
                        best = t;
                        break;
                    }
                }
            }
        }
        if best == before || over() {
            break;
        }
    }
    (best, trials)
}
