//! A case is one fully explicit simulated execution: the operations of every client in delivery
//! order, with the point of every pre-emption and of every injected fault.  It is what is
//! generated from a seed, what is minimised, and what a replay file contains.
use std::fmt::Write;

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Item {
    pub client: usize,
    /// index into the world's operation names; RESUME lets a suspended client go on
    pub op: usize,
    pub i: Vec<i64>,
    pub f: Vec<f64>,
    /// pre-emptions: suspend after that many basic blocks of library code, counted from the
    /// previous (re)start of this operation
    pub pre: Vec<u64>,
    /// the k-th allocation of this operation fails (1-based; 0 = none)
    pub oom: u64,
    /// if set, memory stays exhausted for the rest of the operation
    pub exhaust: bool,
}

pub const RESUME: usize = usize::MAX;

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub index: u64,
    /// run the clients on real OS threads handed the baton one at a time
    pub threads: bool,
    pub entropy: u64,
    pub entropy_mode: u64,
    pub clock: u64,
    pub sim_ns: u64,
    pub cfg: Vec<i64>,
    pub items: Vec<Item>,
    /// faults the generator decided on the network/process level (already folded into the items):
    /// counts by kind, for the evidence
    pub net: Vec<u64>,
}

pub const NETK: [&str; 12] = [
    "message_lost", "message_duplicated", "message_delayed", "message_reordered", "partition",
    "partition_healed", "node_crash", "node_restart", "torn_message", "stale_checkpoint",
    "slow_node", "retransmission",
];

fn ff(x: f64) -> String {
    if x.is_nan() {
        if x.to_bits() == f64::NAN.to_bits() { "nan".into() } else { format!("#{:x}", x.to_bits()) }
    } else {
        format!("{:?}", x)
    }
}
fn pf(s: &str) -> Option<f64> {
    if s == "nan" { return Some(f64::NAN); }
    if let Some(h) = s.strip_prefix('#') { return u64::from_str_radix(h, 16).ok().map(f64::from_bits); }
    s.parse().ok()
}
fn join<T, F: Fn(&T) -> String>(v: &[T], f: F) -> String {
    v.iter().map(f).collect::<Vec<_>>().join(",")
}

/// In the numbers of an item this one stands for a crowd of coordinates, described by the six that follow: how
/// many, ordinates per coordinate, which of the further ordinates are there (1: z, 2: m), kind, salt, and the
/// place of one that lies far away (negative: none).
pub const WIDE: f64 = -7.25e-222;
pub const WIDE_MOST: f64 = 200_000.0;

fn crowd(d: &[f64]) -> Vec<f64> {
    let n = d[0].clamp(0.0, WIDE_MOST) as usize;
    let stride = d[1].clamp(2.0, 4.0) as usize;
    let (extra, kind, salt) = (d[2] as u64, d[3] as u64 % 5, d[4] as u64);
    let mut out = Vec::with_capacity(n * stride);
    for k in 0..n {
        let h = crate::rng::mix(salt, k as u64);
        let (mut x, mut y) = match kind {
            // a simple ring: a rugged top above a flat bottom
            0 => (k as f64, 1.0 + (h % 5) as f64),
            1 => ((h % 7) as f64 - 3.0, (h >> 8 & 7) as f64 - 3.0),
            2 | 4 => (k as f64, (k % 7) as f64),
            _ => (1.0, 1.0),
        };
        if kind == 4 && k as f64 == d[5] && k > 0 {
            // one repeat in a line without others
            (x, y) = (k as f64 - 1.0, ((k - 1) % 7) as f64);
        } else if k as f64 == d[5] {
            y += 1000.0;
            if kind != 0 {
                x -= 5000.0;
            }
        }
        if kind == 0 && n >= 5 {
            if k == n - 3 {
                (x, y) = (k as f64 - 1.0, -3.0);
            } else if k == n - 2 {
                (x, y) = (0.0, -3.0);
            }
        }
        if salt & 2 == 2 {
            y = -y;
        }
        if k == n - 1 && n > 3 && (kind == 0 || salt & 1 == 1) {
            (x, y) = (out[0], out[1]);
        }
        out.push(x);
        out.push(y);
        for j in 2..stride {
            out.push(if extra >> (j - 2) & 1 == 1 { (h >> 16 & 15) as f64 } else { f64::NAN });
        }
    }
    out
}

impl Item {
    /// the item with its crowds written out
    pub fn widen(&self) -> Option<Item> {
        if !self.f.contains(&WIDE) {
            return None;
        }
        let mut f = vec![];
        let mut k = 0;
        while k < self.f.len() {
            if self.f[k] == WIDE && k + 6 < self.f.len() {
                f.extend(crowd(&self.f[k + 1..k + 7]));
                k += 7;
            } else {
                f.push(self.f[k]);
                k += 1;
            }
        }
        Some(Item { f, ..self.clone() })
    }
    /// how many coordinates the crowds of this item have
    pub fn width(&self) -> u64 {
        self.f.iter().enumerate().filter(|(k, x)| **x == WIDE && k + 6 < self.f.len()).map(|(k, _)| self.f[k + 1].clamp(0.0, WIDE_MOST) as u64).sum()
    }
    pub fn text(&self, ops: &[&str]) -> String {
        let mut s = String::new();
        if self.op == RESUME {
            let _ = write!(s, "item client={} resume", self.client);
            return s;
        }
        let _ = write!(s, "item client={} op={}", self.client, ops[self.op]);
        if !self.i.is_empty() { let _ = write!(s, " i={}", join(&self.i, |x| x.to_string())); }
        if !self.f.is_empty() { let _ = write!(s, " f={}", join(&self.f, |x| ff(*x))); }
        if !self.pre.is_empty() { let _ = write!(s, " preempt={}", join(&self.pre, |x| x.to_string())); }
        if self.oom > 0 { let _ = write!(s, " {}={}", if self.exhaust { "exhaust" } else { "oom" }, self.oom); }
        s
    }
}

impl Case {
    pub fn text(&self, ops: &[&str]) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "property {}", self.prop);
        let _ = writeln!(s, "seed {}", self.seed);
        let _ = writeln!(s, "index {}", self.index);
        let _ = writeln!(s, "threads {}", self.threads as u8);
        let _ = writeln!(s, "entropy {} {}", self.entropy, self.entropy_mode);
        let _ = writeln!(s, "clock {}", self.clock);
        let _ = writeln!(s, "cfg {}", join(&self.cfg, |x| x.to_string()));
        for it in &self.items {
            let _ = writeln!(s, "{}", it.text(ops));
        }
        s
    }
    pub fn parse(t: &str, ops_of: &dyn Fn(&str) -> Option<&'static [&'static str]>) -> Result<Case, String> {
        let mut c = Case::default();
        let mut ops: &[&str] = &[];
        for line in t.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') { continue; }
            let (k, v) = line.split_once(' ').unwrap_or((line, ""));
            let bad = || format!("bad line: {line}");
            match k {
                "property" => { c.prop = v.into(); ops = ops_of(v).ok_or_else(bad)?; }
                "seed" => c.seed = v.parse().map_err(|_| bad())?,
                "index" => c.index = v.parse().map_err(|_| bad())?,
                "threads" => c.threads = v == "1",
                "entropy" => {
                    let mut w = v.split(' ');
                    c.entropy = w.next().and_then(|x| x.parse().ok()).ok_or_else(bad)?;
                    c.entropy_mode = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                }
                "clock" => c.clock = v.parse().map_err(|_| bad())?,
                "cfg" => c.cfg = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().map_err(|_| bad())).collect::<Result<_, _>>()?,
                "item" => {
                    let mut it = Item::default();
                    for w in v.split(' ') {
                        if w == "resume" { it.op = RESUME; continue; }
                        let (a, b) = w.split_once('=').ok_or_else(bad)?;
                        match a {
                            "client" => it.client = b.parse().map_err(|_| bad())?,
                            "op" => it.op = ops.iter().position(|o| *o == b).ok_or_else(bad)?,
                            "i" => it.i = b.split(',').map(|x| x.parse().map_err(|_| bad())).collect::<Result<_, _>>()?,
                            "f" => it.f = b.split(',').map(|x| pf(x).ok_or_else(bad)).collect::<Result<_, _>>()?,
                            "preempt" => it.pre = b.split(',').map(|x| x.parse().map_err(|_| bad())).collect::<Result<_, _>>()?,
                            "oom" => it.oom = b.parse().map_err(|_| bad())?,
                            "exhaust" => { it.oom = b.parse().map_err(|_| bad())?; it.exhaust = true; }
                            _ => return Err(bad()),
                        }
                    }
                    c.items.push(it);
                }
                _ => {}
            }
        }
        Ok(c)
    }
}
