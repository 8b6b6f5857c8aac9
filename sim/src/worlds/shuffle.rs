//! Random shuffles: permutations and uniformity under a controlled, failing entropy supply.
use super::common::*;
use crate::case::{Case, Item};
use crate::check;
use crate::rng::Rng;
use crate::rt::*;
use crate::run::Def;
use crate::viol;
use geos_rs::sim::*;
use std::collections::HashMap;

const OPS: &[&str] = &["shuffle", "sample", "entropy", "bulk"];
const SHUF: usize = 0;
const SAMPLE: usize = 1;
const ENT: usize = 2;
const BULK: usize = 3;
const PROBES: &[&str] = &[
    "nothing to shuffle", "one integer", "long shuffle (reseeds)", "entropy unavailable", "shuffled again after entropy recovered",
    "enough samples for a uniformity verdict", "allocation failed inside a shuffle", "two clients drew", "choices decoded from long shuffles judged",
    "a quarter of a million draws compared",
];
const HARD: u64 = 8;
/// the supply delivers distinct bytes, perhaps with interruptions
const HEALTHY: [u64; 5] = [0, 4, 5, 6, 7];

#[derive(Default)]
struct St {
    mode: u64,
    failed: bool,
    started: bool,
    unhealthy: bool,
    /// long shuffles seen, with the client that drew them and whether the entropy was healthy
    seen: HashMap<Vec<i32>, (usize, bool)>,
    drew: Vec<usize>,
    perms: HashMap<Vec<i32>, u64>,
    n_perms: u64,
    /// positions of the first, middle and last element over samples of 20
    pos: [[u64; 20]; 3],
    n_pos: u64,
    /// draws decoded from the longer shuffles (and from their inverses), by length class
    dec: [[Decoded; 2]; 3],
}
/// A permutation is as good as the list of independent uniform choices that lead to it, whichever
/// way it was really made.
#[derive(Default)]
struct Decoded {
    sixteenths: [u64; 16],
    odd: u64,
    of: u64,
    /// choices of the element itself, of the first, the one before and the middle one, by place:
    /// below 16, below 256, beyond
    own: [[u64; 4]; 3],
    own_want: [f64; 3],
}
impl Decoded {
    fn add(&mut self, v: &[i32]) {
        let n = v.len();
        let mut arr: Vec<usize> = (0..n).collect();
        let mut at: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = at[v[i] as usize];
            let (a, b) = (arr[i], arr[j]);
            arr[i] = b;
            arr[j] = a;
            at[b] = i;
            at[a] = j;
            let m = i + 1;
            if m % 16 == 0 || m > 1600 {
                self.sixteenths[j * 16 / m] += 1;
            }
            if m % 2 == 0 {
                self.of += 1;
                self.odd += j as u64 % 2;
            }
            let k = if m < 16 { 0 } else if m < 256 { 1 } else { 2 };
            for (t, w) in [i, 0, i - 1, m / 2].iter().enumerate() {
                self.own[k][t] += (j == *w) as u64;
            }
            self.own_want[k] += 1.0 / m as f64;
        }
    }
    /// thresholds: probability below 1e-15 for a fair shuffle
    fn judge(&self, what: &str) -> Res {
        let n: u64 = self.sixteenths.iter().sum();
        if n >= 1600 {
            let e = n as f64 / 16.0;
            let x: f64 = self.sixteenths.iter().map(|c| (*c as f64 - e).powi(2) / e).sum();
            check!(x < 125.0, "uniformity: {n} choices decoded from {what}: chi-square {x:.1} over sixteenths of their range: {:?}", self.sixteenths);
        }
        if self.of >= 400 {
            let z = (self.odd as f64 - self.of as f64 / 2.0).abs() / (self.of as f64 / 4.0).sqrt();
            check!(z < 8.3, "uniformity: {} of {} choices decoded from {what} are odd", self.odd, self.of);
        }
        for k in 0..3 {
            for (t, s) in ["themselves", "the first", "the one before", "the one in the middle"].iter().enumerate() {
                let (w, g) = (self.own_want[k], self.own[k][t] as f64);
                check!(!(w > 40.0 && g == 0.0) && g < w + 10.0 * w.sqrt() + 30.0, "uniformity: {g} elements of {what} were swapped with {s}, expected about {w:.0}");
            }
        }
        Ok(())
    }
}
struct W {
    st: Own<St>,
}
impl W {
    fn draw(&self, cx: &Cx, n: usize) -> Result<Option<Vec<i32>>, Stop> {
        self.st.get().started = true;
        cx.allow(4_000_000 + 400 * n as u64);
        match cx.lib(|| MathUtil::shuffle(n)) {
            Ok(v) => {
                let mut hit = vec![false; n];
                check!(v.len() == n, "permutation: shuffling {n} integers gave {}", v.len());
                for &k in &v {
                    check!(k >= 0 && (k as usize) < n && !hit[k as usize], "permutation: shuffling {n} integers gave {k} twice or out of range: {:?}", &v[..n.min(30)]);
                    hit[k as usize] = true;
                }
                Ok(Some(v))
            }
            Err(Fault::Oom) => {
                cx.probe(6);
                cx.nontrivial();
                Err(Stop::Oom)
            }
            Err(Fault::Panic(m)) => {
                let s = self.st.get();
                if s.mode == HARD {
                    cx.probe(3);
                    cx.nontrivial();
                    s.failed = true;
                    return Ok(None);
                }
                viol!("panic: shuffling {n} integers panicked: {m}")
            }
        }
    }
}
impl World for W {
    fn exec(&self, cx: &Cx, it: &Item) -> Res {
        match it.op {
            SHUF => {
                let n = it.ii(0).clamp(0, 70_000) as usize;
                let Some(v) = self.draw(cx, n)? else { return Ok(()) };
                cx.calm();
                let s = self.st.get();
                match n {
                    0 => cx.probe(0),
                    1 => cx.probe(1),
                    n if n > 9000 => cx.probe(2),
                    _ => {}
                }
                if s.failed && s.mode != HARD {
                    cx.probe(4);
                }
                if n > 1 && !s.drew.contains(&cx.client) {
                    s.drew.push(cx.client);
                    if s.drew.len() == 2 {
                        cx.probe(7);
                        cx.nontrivial();
                    }
                }
                for k in v.iter().take(64) {
                    cx.log(*k as u64);
                }
                if n > 1 && !s.unhealthy {
                    let d = &mut s.dec[if n < 100 { 0 } else if n < 3000 { 1 } else { 2 }];
                    d[0].add(&v);
                    let mut inv = vec![0; n];
                    v.iter().enumerate().for_each(|(k, e)| inv[*e as usize] = k as i32);
                    d[1].add(&inv);
                }
                if n >= 24 {
                    // 1/24! is below 1e-23: a repeat means the draws are not independent
                    let ok = !s.unhealthy;
                    if let Some((c, o)) = s.seen.insert(v, (cx.client, ok)) {
                        check!(c != cx.client && !(o && ok), "uniformity: clients {c} and {} drew the same permutation of {n}", cx.client);
                    }
                }
            }
            SAMPLE => {
                let n = it.ii(0).clamp(2, 4) as usize;
                for _ in 0..150 {
                    let Some(v) = self.draw(cx, n)? else { return Ok(()) };
                    let s = self.st.get();
                    *s.perms.entry(v).or_default() += 1;
                    s.n_perms += 1;
                }
                for _ in 0..40 {
                    let Some(v) = self.draw(cx, 20)? else { return Ok(()) };
                    let s = self.st.get();
                    for (p, e) in v.iter().enumerate() {
                        for (t, w) in [0, 10, 19].iter().enumerate() {
                            if e == w {
                                s.pos[t][p] += 1;
                            }
                        }
                    }
                    s.n_pos += 1;
                }
            }
            BULK => {
                // generators with few states repeat themselves: 20! is beyond 10^18
                let many = it.ii(0).clamp(0, 250_000) as usize;
                let mut seen = std::collections::HashSet::with_capacity(many);
                for k in 0..many {
                    let Some(v) = self.draw(cx, 20)? else { return Ok(()) };
                    cx.calm();
                    let mut code = 0u64;
                    for a in 0..20 {
                        code = code * (20 - a as u64) + v[a + 1..].iter().filter(|b| **b < v[a]).count() as u64;
                    }
                    check!(seen.insert(code) || self.st.get().unhealthy, "uniformity: draw {k} repeats an earlier permutation of 20: {v:?}");
                }
                if many == 250_000 {
                    cx.probe(9);
                }
            }
            ENT => {
                let mut m = it.ii(0).clamp(0, 9) as u64;
                // an operating system does not lose the system call half way
                if m == 6 && self.st.get().started {
                    m = 0;
                }
                self.st.get().mode = m;
                self.st.get().unhealthy |= !HEALTHY.contains(&m);
                cx.set_entropy(it.ii(1) as u64, m);
                cx.jump_clock(it.ii(2).unsigned_abs());
            }
            _ => {}
        }
        Ok(())
    }
    fn finish(&self, cx: &Cx) -> Res {
        let s = self.st.get();
        if s.unhealthy {
            return Ok(());
        }
        // thresholds: probability below 1e-15 for a fair shuffle
        let chi = |c: &[u64], k: u64, n: u64| -> f64 {
            let e = n as f64 / k as f64;
            c.iter().map(|x| (*x as f64 - e).powi(2) / e).sum::<f64>() + (k - c.len() as u64) as f64 * e
        };
        if s.n_perms >= 2000 {
            cx.probe(5);
            cx.nontrivial();
            let n = s.perms.keys().next().unwrap().len();
            let k = (1..=n as u64).product::<u64>();
            let c: Vec<u64> = s.perms.values().copied().collect();
            let x = chi(&c, k, s.n_perms);
            let lim = [0.0, 0.0, 70.0, 85.0, 135.0][n];
            check!(x < lim, "uniformity: {} shuffles of {n}: chi-square {x:.1} over {k} permutations ({} seen)", s.n_perms, c.len());
        }
        for (k, what) in ["short shuffles", "shuffles of hundreds", "shuffles of thousands"].iter().enumerate() {
            s.dec[k][0].judge(what)?;
            s.dec[k][1].judge(&format!("{what} (inverted)"))?;
            if s.dec[k][0].of >= 400 {
                cx.probe(8);
            }
        }
        if s.n_pos >= 1000 {
            for (t, w) in [0, 10, 19].iter().enumerate() {
                let x = chi(&s.pos[t], 20, s.n_pos);
                check!(x < 125.0, "uniformity: positions of {w} in {} shuffles of 20: chi-square {x:.1}: {:?}", s.n_pos, s.pos[t]);
            }
        }
        Ok(())
    }
}
fn gen(r: &mut Rng, index: u64) -> Case {
    let nodes = 1 + r.us(4);
    let mut g = Gossip::new(r, nodes);
    let calm = r.one_in(2);
    let ent = |r: &mut Rng, c: usize| item(c, ENT, vec![*r.pick(if calm { &[0, 0, 0, 4, 5, 7] } else { &[0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9] }), r.u64() as i64 >> 1, r.u64() as i64 >> 2], vec![]);
    let e = ent(r, 0);
    g.ev.push((0, e));
    if index % 40 == 7 {
        let n = r.range(2, 4);
        g.ev[0].1.i[0] = *r.pick(&[0, 0, 4, 5, 6, 7]);
        for _ in 0..70 {
            let c = r.us(nodes);
            let it = item(c, SAMPLE, vec![n], vec![]);
            g.at(it, r);
        }
    } else if index % 3000 == 333 {
        g.ev[0].1.i[0] = *r.pick(&[0, 0, 4, 5, 7]);
        let it = item(0, BULK, vec![250_000], vec![]);
        g.at(it, r);
    } else if index % 80 == 11 {
        // nothing but healthy shuffles of one order of magnitude
        g.ev[0].1.i[0] = *r.pick(&[0, 0, 4, 5, 7]);
        let (a, b, many) = *r.pick(&[(16_000, 66_000, 4), (500, 3000, 45), (30, 400, 60)]);
        for _ in 0..many {
            let c = r.us(nodes);
            let it = item(c, SHUF, vec![r.range(a, b)], vec![]);
            g.at(it, r);
        }
    } else {
        for _ in 0..3 + r.us(12) {
            let c = r.us(nodes);
            let n = match r.below(40) {
                0 => r.range(9_000, 12_000),
                1..=3 => r.range(100, 3000),
                4..=12 => r.range(24, 60),
                13..=18 => r.range(0, 1),
                _ => r.range(2, 24),
            };
            let it = if r.one_in(6) { ent(r, c) } else { item(c, SHUF, vec![n], vec![]) };
            g.at(it, r);
        }
    }
    g.build(r, &Mix { threads: 0.5, oom: 0.3, max_gap: 2000 }, None)
}
fn clients(c: &Case) -> usize {
    c.cfg.first().copied().unwrap_or(1).clamp(1, 8) as usize
}
fn make(_c: &Case) -> Box<dyn World> {
    Box::new(W { st: Own::new(St::default()) })
}
pub const DEF: Def = Def {
    id: "C12",
    ops: OPS,
    gen,
    make,
    clients,
    reference: None,
    quick_runs: 6_000,
    thorough_runs: 400_000,
    probes: PROBES,
    rule: "a run is non-trivial if two clients drew, entropy was unavailable, an allocation failed inside a shuffle, or enough samples for a uniformity verdict were drawn; distinct by event-log hash",
    real: &["MathUtil::shuffle", "rand::ThreadRng (ChaCha12, reseeding, OsRng with its fallbacks)"],
    stub: &["operating system entropy (getrandom, /dev/urandom) behind a seam that shortens, interrupts, refuses, freezes or repeats it", "clock", "allocator (real memory behind a seam that injects failures)"],
};
