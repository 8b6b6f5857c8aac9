//! Answers depend on the arguments alone: every call, in any history, schedule and fault sequence, is compared
//! with the same call made first thing in a process of its own.
use super::common::*;
use super::funs::*;
use crate::case::{Case, Item};
use crate::check;
use crate::rng::Rng;
use crate::rt::*;
use crate::run::{refs, Def};
use crate::viol;
use geos_rs::sim::*;
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

const PROBES: &[&str] = &[
    "same call again", "same arguments shared by two clients", "arguments built anew", "allocation failed inside", "panicked as in a fresh process", "same function, other arguments",
    "entropy disturbed", "clock jumped", "shuffled", "call after a failed one", "call while another client is inside the library",
    "the same call hundreds of times", "hundreds of different calls, twice over",
];
type Key = (usize, Vec<i64>, Vec<u64>);
fn key(it: &Item) -> Key {
    (it.op, it.i.clone(), it.f.iter().map(|x| x.to_bits()).collect())
}
struct Shared {
    args: Args,
    bits: Vec<C4>,
    /// index of the reference
    at: usize,
}
#[derive(Default)]
struct Hist {
    calls: HashMap<usize, usize>,
    by: HashMap<usize, usize>,
    failed: bool,
    inside: usize,
}
struct W {
    shared: HashMap<Key, Arc<Shared>>,
    h: Own<Hist>,
}
const PANIC: u64 = 0xdead_0000_0000_0001;
/// a panic is described by its message, without the place in the source
fn panicked(m: &str) -> Vec<u64> {
    let m = m.split(" at ").next().unwrap_or("");
    vec![PANIC, crate::rng::hash_str(m)]
}
fn digest(o: &[u64]) -> Vec<u64> {
    let mut v = vec![o.len() as u64, o.iter().fold(7, |h, x| crate::rng::mix(h, *x))];
    v.extend(o.iter().take(200));
    v
}
fn reference(cx: &Cx, it: &Item) {
    if it.op >= FUNS.len() {
        return;
    }
    let args = Args::of(it);
    let mut o = Vec::with_capacity(4096);
    match cx.lib(|| (FUNS[it.op].run)(&args.a(), &mut o)) {
        Ok(()) => cx.out(&digest(&o)),
        Err(Fault::Panic(m)) => cx.out(&panicked(&m)),
        Err(Fault::Oom) => cx.out(&[]),
    }
}
impl World for W {
    fn exec(&self, cx: &Cx, it: &Item) -> Res {
        let nf = FUNS.len();
        if it.op >= nf {
            match it.op - nf {
                0 => {
                    cx.set_entropy(it.ii(0) as u64, it.ii(1).clamp(0, 9) as u64);
                    cx.probe(6);
                }
                1 => {
                    cx.jump_clock(it.ii(0).unsigned_abs());
                    cx.probe(7);
                }
                _ => {
                    let _ = cx.lib(|| MathUtil::shuffle(it.ii(0).clamp(0, 300) as usize));
                    cx.probe(8);
                }
            }
            return Ok(());
        }
        let Some(s) = self.shared.get(&key(it)) else { return Ok(()) };
        let s = s.clone();
        let h = self.h.get();
        let n = h.calls.entry(it.op).or_insert(usize::MAX);
        if *n == s.at {
            cx.probe(0);
        } else if *n != usize::MAX {
            cx.probe(5);
            cx.nontrivial();
        }
        *n = s.at;
        if h.by.insert(s.at, cx.client).is_some_and(|c| c != cx.client) {
            cx.probe(1);
        }
        if h.failed {
            cx.probe(9);
        }
        if h.inside > 0 {
            cx.probe(10);
            cx.nontrivial();
        }
        // the same objects for every caller, or new ones that live only during this call
        let own;
        let args = if it.pre.len() % 2 == 1 || it.oom % 2 == 1 {
            own = Args::of(it);
            cx.probe(2);
            &own
        } else {
            &s.args
        };
        let mut o = Vec::with_capacity(4096);
        self.h.get().inside += 1;
        let r = cx.lib(|| (FUNS[it.op].run)(&args.a(), &mut o));
        self.h.get().inside -= 1;
        cx.calm();
        let want = &refs()[s.at];
        let name = NAMES[it.op];
        let got = match r {
            Ok(()) => digest(&o),
            Err(Fault::Oom) => {
                cx.probe(3);
                cx.nontrivial();
                self.h.get().failed = true;
                check!(args.bits() == s.bits, "arguments: {name} changed its arguments when memory ran out: {}", show4(&s.bits));
                return Err(Stop::Oom);
            }
            Err(Fault::Panic(m)) => {
                self.h.get().failed = true;
                if want.first() != Some(&PANIC) {
                    viol!("history: {name} panicked here ({m}) but not in a fresh process: {} and {:?} {:?}", show4(&s.bits), s.args.f, s.args.k);
                }
                cx.probe(4);
                panicked(&m)
            }
        };
        check!(args.bits() == s.bits, "arguments: {name} changed its arguments: {}", show4(&s.bits));
        if got != *want {
            let at = (0..got.len().max(want.len())).find(|k| got.get(*k) != want.get(*k) && *k > 1).unwrap_or(1);
            let f = |v: &Vec<u64>| v.get(at).map(|b| format!("{:?}", f64::from_bits(*b))).unwrap_or("nothing".into());
            viol!("history: {name} answers {} where a fresh process answers {} (word {at} of {} and {}): {} and {:?} {:?}", f(&got), f(want), got.len(), want.len(), show4(&s.bits), s.args.f, s.args.k);
        }
        for x in &got {
            cx.log(*x);
        }
        let n = it.ii(6).clamp(0, 5000) as usize;
        if n == 0 {
            return Ok(());
        }
        // a long history: the same call over and over, or a walk through other arguments, walked twice
        let step = f64::from_bits(it.ii(7) as u64);
        let mut once = |args: &Args| -> Vec<u64> {
            o.clear();
            cx.allow(STEP_BUDGET);
            match cx.lib(|| (FUNS[it.op].run)(&args.a(), &mut o)) {
                Ok(()) => digest(&o),
                Err(Fault::Panic(m)) => panicked(&m),
                Err(Fault::Oom) => vec![],
            }
        };
        if step == 0.0 {
            cx.probe(11);
            for j in 0..n {
                let g = once(args);
                if g != *want {
                    viol!("history: {name} answers differently when called for the {}th time: {} and {:?} {:?}", j + 2, show4(&s.bits), s.args.f, s.args.k);
                }
            }
        } else {
            cx.probe(12);
            let walk = |j: usize| {
                let d = step * (j + 1) as f64;
                let mut i2 = it.clone();
                for (k, x) in i2.f.iter_mut().enumerate() {
                    if (k + j) % 3 != 0 {
                        *x += d;
                    }
                }
                Args::of(&i2)
            };
            let first: Vec<Vec<u64>> = (0..n).map(|j| once(&walk(j)).into_iter().take(2).collect()).collect();
            for (j, f) in first.iter().enumerate() {
                let a = walk(j);
                let g = once(&a);
                if g[..g.len().min(2)] != f[..] {
                    viol!("history: {name} answers differently the second time: {} and {:?} {:?}", show4(&a.bits()), a.f, a.k);
                }
            }
            check!(once(args) == *want, "history: {name} answers differently after {} other calls: {} and {:?} {:?}", 2 * n, show4(&s.bits), s.args.f, s.args.k);
        }
        cx.nontrivial();
        Ok(())
    }
}
pub fn names() -> &'static [&'static str] {
    static N: OnceLock<Vec<&'static str>> = OnceLock::new();
    N.get_or_init(|| NAMES.iter().copied().chain(["entropy", "clock", "shuffle"]).collect())
}
fn ring(r: &mut Rng, st: Style) -> Vec<[f64; 4]> {
    let mut p = simple_ring(r);
    if p.is_empty() {
        return vec![];
    }
    p.push(p[0]);
    let (ox, oy) = if r.one_in(2) { (0.0, 0.0) } else { (val(r, st), val(r, st)) };
    let z = r.below(3);
    p.iter().map(|q| [q.0 as f64 + ox, q.1 as f64 + oy, if z == 1 { (q.0 + q.1) as f64 } else { f64::NAN }, if z == 2 { q.0 as f64 } else { f64::NAN }]).collect()
}
struct Call {
    op: usize,
    c: Vec<[f64; 4]>,
    v: Vec<[f64; 4]>,
    w: Vec<[f64; 4]>,
    f: Vec<f64>,
    k: Vec<i64>,
}
impl Call {
    fn draw(r: &mut Rng, op: usize, st: Style, pool: &[f64]) -> Call {
        let fun = &FUNS[op];
        let x = |r: &mut Rng| if r.one_in(3) { val(r, st) } else { *r.pick(pool) };
        let kind = r.below(6);
        let q = |r: &mut Rng| [x(r), x(r), if kind & 1 == 1 { x(r) } else { f64::NAN }, if kind > 3 { x(r) } else { f64::NAN }];
        let list = |r: &mut Rng| -> Vec<[f64; 4]> {
            match r.below(6) {
                0 => vec![],
                1 => (0..2 + r.us(9)).map(|_| q(r)).collect(),
                2 if r.one_in(4) => {
                    let n = if r.one_in(8) { 200 + r.us(400) } else { 40 + r.us(80) };
                    (0..n).map(|_| q(r)).collect()
                }
                2 => {
                    let mut v: Vec<[f64; 4]> = (0..3 + r.us(6)).map(|_| q(r)).collect();
                    v.push(v[0]);
                    v
                }
                _ => ring(r, st),
            }
        };
        let v = if fun.v > 0 { list(r) } else { vec![] };
        let w = if fun.v < 2 {
            vec![]
        } else {
            match r.below(5) {
                0 => v.clone(),
                1 => v.iter().rev().copied().collect(),
                _ => list(r),
            }
        };
        let k = (0..fun.k).map(|j| if fun.v == 0 && j < 2 && r.one_in(2) { r.range(0, 1 << 18) } else if r.one_in(9) { r.range(-9, 99) } else { r.range(0, 7) }).collect();
        Call { op, c: (0..fun.c).map(|_| q(r)).collect(), v, w, f: (0..fun.f).map(|_| x(r)).collect(), k }
    }
    /// a call that looks much the same: what a careless cache key could not tell apart
    fn vary(&self, r: &mut Rng, st: Style, pool: &[f64]) -> Call {
        let mut n = Call { op: self.op, c: self.c.clone(), v: self.v.clone(), w: self.w.clone(), f: self.f.clone(), k: self.k.clone() };
        let x = |r: &mut Rng| if r.one_in(2) { val(r, st) } else { *r.pick(pool) };
        for _ in 0..1 + r.us(2) {
            let d = r.us(4);
            match r.below(12) {
                0 | 1 if !n.c.is_empty() => {
                    let j = r.us(n.c.len());
                    n.c[j][d] = x(r)
                }
                2 if n.c.len() > 1 => {
                    let (i, j) = (r.us(n.c.len()), r.us(n.c.len()));
                    n.c.swap(i, j)
                }
                3 | 4 if !n.v.is_empty() => {
                    let j = r.us(n.v.len());
                    n.v[j][d] = x(r);
                    if j == 0 {
                        let l = n.v.len() - 1;
                        n.v[l] = n.v[0]
                    }
                }
                5 if n.v.len() > 1 => n.v.reverse(),
                6 if n.v.len() > 2 => {
                    let l = n.v.len() - 1;
                    n.v[1..l].rotate_left(1 % l.max(2).saturating_sub(1).max(1))
                }
                7 => std::mem::swap(&mut n.v, &mut n.w),
                8 if !n.w.is_empty() => {
                    let j = r.us(n.w.len());
                    n.w[j][d] = x(r)
                }
                9 if !n.k.is_empty() => {
                    let j = r.us(n.k.len());
                    n.k[j] = r.range(0, 9)
                }
                10 => {
                    // mirrored or shifted as a whole
                    let (m, s) = if r.one_in(2) { (-1.0, 0.0) } else { (1.0, x(r)) };
                    for q in n.c.iter_mut().chain(&mut n.v).chain(&mut n.w) {
                        q[0] = q[0] * m + s;
                    }
                }
                _ if !n.f.is_empty() => {
                    let j = r.us(n.f.len());
                    n.f[j] = if r.one_in(3) { -n.f[j] } else { x(r) }
                }
                _ => {}
            }
        }
        if FUNS[n.op].v < 2 {
            n.w.clear();
        }
        if FUNS[n.op].v < 1 {
            n.v.clear();
        }
        n
    }
    fn item(&self, client: usize) -> Item {
        to_item(client, self.op, &self.c, &self.v, &self.w, &self.f, &self.k)
    }
}
fn gen(r: &mut Rng, index: u64) -> Case {
    let nodes = 1 + r.us(4);
    let mut g = Gossip::new(r, nodes);
    let st = *r.pick(&[Style::Tiny, Style::Small, Style::Small, Style::Mid, Style::Dyadic, Style::Frac, Style::Far, Style::Big]);
    let pool: Vec<f64> = (0..2 + r.us(5)).map(|_| if r.one_in(15) { *r.pick(&[0.0, -0.0, f64::NAN, 1e300]) } else { val(r, st) }).collect();
    let mut pool = pool;
    near(r, &mut pool, false);
    let nf = FUNS.len();
    let (ops, variants, calls) = match r.below(4) {
        0 => (1, 2 + r.us(4), 40 + r.us(100)),
        1 => (2, 2 + r.us(3), 30 + r.us(30)),
        2 => (3 + r.us(3), 2, 24),
        _ => (8, 1 + r.us(2), 24),
    };
    let mut menu: Vec<Call> = vec![];
    for j in 0..ops {
        // every operation gets its turn
        let op = if j == 0 { (index as usize + r.us(3)) % nf } else { r.us(nf) };
        let base = Call::draw(r, op, st, &pool);
        for _ in 1..variants {
            menu.push(if r.one_in(5) { Call::draw(r, op, st, &pool) } else { base.vary(r, st, &pool) });
        }
        menu.push(base);
    }
    // now and then a history of thousands of calls
    let long = if r.one_in(12) { calls as u64 / 2 } else { 0 };
    for _ in 0..calls {
        let c = r.us(nodes);
        let it = match r.below(30) {
            0 => item(c, nf, vec![r.u64() as i64 >> 1, r.range(0, 9)], vec![]),
            1 => item(c, nf + 1, vec![r.u64() as i64 >> 2], vec![]),
            2 => item(c, nf + 2, vec![r.range(0, 60)], vec![]),
            _ => menu[r.us(menu.len())].item(c),
        };
        let mut it = it;
        if long > 0 && r.one_in(long) && it.op < nf {
            let words = it.f.len().max(1);
            let n = ((1usize << (4 + r.us(9))) + r.us(16)).min(40_000 / words).min(5000);
            let step = if r.one_in(2) { 0.0 } else { *r.pick(&[1.0, 0.25, -1.0, 3.0, 1e-3]) };
            it.i.resize(6, 0);
            it.i.extend([n as i64, f64::to_bits(step) as i64]);
        }
        g.at(it, r);
    }
    g.drill(r);
    g.build(r, &Mix { threads: 0.7, oom: 0.4, max_gap: 400 }, None)
}
fn clients(c: &Case) -> usize {
    c.cfg.first().copied().unwrap_or(1).clamp(1, 8) as usize
}
fn make(c: &Case) -> Box<dyn World> {
    let mut shared: HashMap<Key, Arc<Shared>> = HashMap::new();
    for (at, it) in c.items.iter().enumerate() {
        if it.op < FUNS.len() {
            shared.entry(key(it)).or_insert_with(|| {
                let args = Args::of(it);
                let bits = args.bits();
                Arc::new(Shared { args, bits, at })
            });
        }
    }
    Box::new(W { shared, h: Own::new(Hist::default()) })
}
pub fn def() -> Def {
    Def {
        id: "C01",
        ops: names(),
        gen,
        make,
        clients,
        reference: Some(reference),
        quick_runs: 30_000,
        thorough_runs: 400_000,
        probes: PROBES,
        rule: "a run is non-trivial if a function was called with other arguments since, an allocation failed, or another client was inside the library; distinct by event-log hash",
        real: &["every value-returning operation of the library, by name"],
        stub: &["operating system entropy, clock", "allocator (real memory behind a seam that injects failures)", "the fresh process that answers each call once"],
    }
}
