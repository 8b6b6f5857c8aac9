//! Shared pieces of the generators: value styles, the simulated network, fault sprinkling.
use crate::case::{Case, Item, RESUME, WIDE};
use crate::rng::Rng;
use std::cell::UnsafeCell;

pub const LOST: usize = 0;
pub const DUP: usize = 1;
pub const DELAYED: usize = 2;
pub const REORDERED: usize = 3;
pub const PARTITION: usize = 4;
pub const HEALED: usize = 5;
pub const CRASH: usize = 6;
pub const RESTART: usize = 7;
#[allow(dead_code)]
pub const TORN: usize = 8;
pub const STALE: usize = 9;
pub const SLOW: usize = 10;
pub const RETRANS: usize = 11;

/// State owned by one client; the baton guarantees that one thread runs at a time.
pub struct Own<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Own<T> {}
unsafe impl<T> Send for Own<T> {}
impl<T> Own<T> {
    pub fn new(t: T) -> Self {
        Own(UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    Tiny,     // 0..3
    Small,    // -10..10
    Mid,      // -1000..1000
    Dyadic,   // quarters
    Frac,     // arbitrary decimals
    Big,      // +-2^40
    Huge,     // 1e100..1e150
    Minute,   // 1e-150..
    Far,      // small integers around a far-away origin
    Mixed,
}
pub const STYLES: [Style; 10] = [
    Style::Tiny, Style::Small, Style::Mid, Style::Dyadic, Style::Frac, Style::Big, Style::Huge,
    Style::Minute, Style::Far, Style::Mixed,
];
pub fn style(r: &mut Rng) -> Style {
    *r.pick(&STYLES)
}
pub fn val(r: &mut Rng, s: Style) -> f64 {
    match s {
        Style::Tiny => r.range(0, 3) as f64,
        Style::Small => r.range(-10, 10) as f64,
        Style::Mid => r.range(-1000, 1000) as f64,
        Style::Dyadic => r.range(-64, 64) as f64 / 4.0,
        Style::Frac => (r.f01() - 0.5) * 200.0,
        Style::Big => r.range(-(1 << 40), 1 << 40) as f64,
        Style::Huge => (r.f01() - 0.5) * 10f64.powi(r.range(90, 140) as i32),
        Style::Minute => (r.f01() - 0.5) * 10f64.powi(r.range(-140, -90) as i32),
        Style::Far => 1048576.0 * 64.0 + r.range(-8, 8) as f64,
        Style::Mixed => {
            let k = *r.pick(&STYLES[..9]);
            if r.one_in(12) { *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5]) } else { val(r, k) }
        }
    }
}
/// now and then values that differ from one of the pool by very little: the next number, a tiny part, or the sign
pub fn near(r: &mut Rng, pool: &mut Vec<f64>, exact: bool) {
    if !r.one_in(3) {
        return;
    }
    for _ in 0..1 + r.us(2) {
        let v = *r.pick(pool);
        let e = *r.pick(&[1e-6, 1e-8, 1e-9, 1e-10, 1e-12]);
        pool.push(match r.below(if exact { 3 } else { 8 }) {
            0 => -v,
            1 => v + 2f64.powi(-*r.pick(&[10, 20, 30, 34])),
            2 => v - 2f64.powi(-*r.pick(&[20, 30, 34])),
            3 | 4 => v.next_up(),
            5 => v.next_down(),
            6 => v * (1.0 + e),
            _ => v - e,
        });
    }
}
/// exactly representable integers, small enough that every product of two differences is exact
pub fn intval(r: &mut Rng) -> f64 {
    let k = *r.pick(&[2i64, 4, 10, 40, 1000]);
    r.range(-k, k) as f64
}

/// A simulated network in simulated nanoseconds.
pub struct Net {
    pub lat: (u64, u64),
    pub loss: f64,
    pub dup: f64,
    pub spike: f64,
    pub parts: Vec<(u64, u64, u64)>, // from, to, node mask of one side
    pub slow: Option<usize>,
    pub cnt: Vec<u64>,
}
impl Net {
    pub fn draw(r: &mut Rng, nodes: usize, horizon: u64) -> Net {
        let chaos = r.below(4);
        let (loss, dup, spike) = match chaos {
            0 => (0.0, 0.0, 0.0),
            1 => (0.1, 0.1, 0.1),
            2 => (r.f01() * 0.5, r.f01() * 0.5, r.f01() * 0.5),
            _ => (0.02, 0.4, 0.4),
        };
        let mut n = Net { lat: (1000, 1000 + r.below(2_000_000)), loss, dup, spike, parts: vec![], slow: None, cnt: vec![0; 12] };
        if nodes > 1 && chaos > 0 {
            for _ in 0..r.below(3) {
                let a = r.below(horizon);
                let b = a + r.below(horizon / 2 + 1);
                n.parts.push((a, b, 1 + r.below((1 << nodes) - 1)));
                n.cnt[PARTITION] += 1;
                if b < horizon {
                    n.cnt[HEALED] += 1;
                }
            }
            if r.one_in(3) {
                n.slow = Some(r.us(nodes));
                n.cnt[SLOW] += 1;
            }
        }
        n
    }
    /// arrival times of a message sent at `t` (none: lost)
    pub fn send(&mut self, r: &mut Rng, from: usize, to: usize, t: u64) -> Vec<u64> {
        for &(a, b, m) in &self.parts {
            if t >= a && t < b && (m >> from & 1) != (m >> to & 1) {
                self.cnt[LOST] += 1;
                return vec![];
            }
        }
        if r.chance(self.loss) {
            self.cnt[LOST] += 1;
            return vec![];
        }
        let mut v = vec![];
        let copies = 1 + r.chance(self.dup) as usize;
        self.cnt[DUP] += copies as u64 - 1;
        for _ in 0..copies {
            let mut l = self.lat.0 + r.below(self.lat.1 - self.lat.0 + 1);
            if r.chance(self.spike) {
                l *= 20;
                self.cnt[DELAYED] += 1;
            }
            if self.slow == Some(to) {
                l *= 8;
            }
            v.push(t + l);
        }
        v
    }
}

/// Put events in time order (stable on the sequence number), counting overtakings.
pub fn timeline(mut ev: Vec<(u64, Item)>, cnt: &mut [u64]) -> (Vec<Item>, u64) {
    let mut idx: Vec<usize> = (0..ev.len()).collect();
    idx.sort_by_key(|i| (ev[*i].0, *i));
    let end = idx.last().map(|i| ev[*i].0).unwrap_or(0);
    let mut mx = 0;
    for &i in &idx {
        if i < mx {
            cnt[REORDERED] += 1;
        }
        mx = mx.max(i);
    }
    let items = idx.into_iter().map(|i| std::mem::take(&mut ev[i].1)).collect();
    (items, end)
}

pub struct Mix {
    pub threads: f64,
    pub oom: f64,
    pub max_gap: u64,
}

/// Swarm-style: decide per run which fault kinds are on, then place them inside operations.
pub fn sprinkle(r: &mut Rng, c: &mut Case, clients: usize, m: &Mix) {
    c.entropy = r.u64();
    c.clock = r.below(4_000_000_000) * 1_000_000_000;
    c.threads = clients > 1 && r.chance(m.threads);
    let p_pre = if c.threads { *r.pick(&[0.1, 0.3, 0.7, 1.0]) } else { 0.0 };
    let p_oom = if r.chance(m.oom) { *r.pick(&[0.05, 0.2, 0.5]) } else { 0.0 };
    let mut out = Vec::with_capacity(c.items.len() * 2);
    for mut it in std::mem::take(&mut c.items) {
        if r.chance(p_pre) {
            for _ in 0..1 + r.us(3) {
                let e = 1 + r.us(64 - m.max_gap.leading_zeros() as usize);
                it.pre.push(1 + r.below(1 << e));
            }
        }
        if r.chance(p_oom) {
            it.oom = 1 + r.count(12) as u64;
            it.exhaust = r.one_in(4);
        }
        out.push(it);
        while c.threads && r.chance(0.25) {
            out.push(Item { client: r.us(clients), op: RESUME, ..Default::default() });
        }
    }
    c.items = out;
}
pub fn item(client: usize, op: usize, i: Vec<i64>, f: Vec<f64>) -> Item {
    Item { client, op, i, f, ..Default::default() }
}
impl Item {
    pub fn ii(&self, k: usize) -> i64 {
        self.i.get(k).copied().unwrap_or(0)
    }
    pub fn ff(&self, k: usize) -> f64 {
        self.f.get(k).copied().unwrap_or(0.0)
    }
}
/// equal within relative tolerance `rel` of `scale` (and exactly for infinities/NaN)
pub fn close(a: f64, b: f64, rel: f64, scale: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    (a - b).abs() <= rel * scale.abs().max(a.abs()).max(b.abs())
}
pub fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// Builder for replicated worlds: local operations, messages, checkpoints and crashes in
/// simulated time, linearised to the delivery order the clients execute.
pub struct Gossip {
    pub nodes: usize,
    pub horizon: u64,
    pub net: Net,
    pub ev: Vec<(u64, Item)>,
    pub slot: i64,
}
impl Gossip {
    pub fn new(r: &mut Rng, nodes: usize) -> Gossip {
        let horizon = 50_000_000;
        Gossip { nodes, horizon, net: Net::draw(r, nodes, horizon), ev: vec![], slot: 0 }
    }
    pub fn at(&mut self, it: Item, r: &mut Rng) {
        let t = r.below(self.horizon);
        self.ev.push((t, it));
    }
    /// node `c` sends its state (op `snd`, mailbox slot in i[0]); deliveries run op `rcv`
    pub fn send(&mut self, r: &mut Rng, c: usize, snd: usize, rcv: usize) {
        let t = r.below(self.horizon);
        let to = r.us(self.nodes);
        let s = self.slot;
        self.slot += 1;
        self.ev.push((t, item(c, snd, vec![s, r.range(0, 3)], vec![])));
        for a in self.net.send(r, c, to, t) {
            self.ev.push((a, item(to, rcv, vec![s, r.range(0, 3)], vec![])));
        }
    }
    pub fn drill(&mut self, r: &mut Rng) {
        drill(r, &mut self.ev);
    }
    pub fn crash(&mut self, r: &mut Rng, c: usize, op: usize) {
        self.net.cnt[CRASH] += 1;
        self.net.cnt[RESTART] += 1;
        self.at(item(c, op, vec![r.range(0, 3)], vec![]), r);
    }
    /// Linearise, add schedule and fault points, then (optionally) the fault-free healing phase:
    /// acknowledged inputs are re-submitted and every node's state is sent to every node.
    pub fn build(mut self, r: &mut Rng, mix: &Mix, heal: Option<(Vec<Item>, usize, usize, usize)>) -> Case {
        let (items, end) = timeline(self.ev, &mut self.net.cnt);
        let mut c = Case { cfg: vec![self.nodes as i64], items, sim_ns: end, ..Default::default() };
        sprinkle(r, &mut c, self.nodes, mix);
        if let Some((log, snd, rcv, conv)) = heal {
            self.net.cnt[RETRANS] += log.len() as u64;
            c.items.extend(log);
            for a in 0..self.nodes {
                c.items.push(item(a, snd, vec![self.slot + a as i64, 0], vec![]));
            }
            for b in 0..self.nodes {
                let mut o: Vec<usize> = (0..self.nodes).collect();
                r.shuffle(&mut o);
                for a in o {
                    c.items.push(item(b, rcv, vec![self.slot + a as i64, 0], vec![]));
                }
            }
            c.items.push(item(0, conv, vec![], vec![]));
            c.sim_ns += 10_000_000;
        }
        c.net = self.net.cnt;
        c
    }
}

/// a coordinate as comparable bits (every NaN is the same)
pub type C4 = [u64; 4];
pub fn fb(x: f64) -> u64 {
    if x.is_nan() { 0x7ff8_0000_0000_0000 } else { x.to_bits() }
}
pub fn bits(c: &geos_rs::sim::Coordinate) -> C4 {
    [fb(c.x), fb(c.y), fb(c.z), fb(c.m)]
}
pub fn bits_of(v: &[geos_rs::sim::Coordinate]) -> Vec<C4> {
    v.iter().map(bits).collect()
}
pub fn show4(v: &[C4]) -> String {
    let mut s = String::from("[");
    for (k, c) in v.iter().enumerate().take(12) {
        let f: Vec<f64> = c.iter().map(|b| f64::from_bits(*b)).collect();
        s += &format!("{}({:?} {:?} {:?} {:?})", if k > 0 { " " } else { "" }, f[0], f[1], f[2], f[3]);
    }
    if v.len() > 12 {
        s += &format!(" .. {} in all", v.len());
    }
    s + "]"
}
/// a position: mostly a small one, now and then anywhere in a long list
pub fn place(r: &mut Rng, small: i64) -> i64 {
    if r.one_in(6) { r.range(0, 1 << 20) } else { r.range(0, small) }
}
/// 2D equality of two coordinates given as bits
pub fn eq2(a: &C4, b: &C4) -> bool {
    let f = f64::from_bits;
    f(a[0]) == f(b[0]) && f(a[1]) == f(b[1])
}
pub fn coord(c: &C4) -> geos_rs::sim::Coordinate {
    let f = f64::from_bits;
    geos_rs::sim::Coordinate::new_xyzm(f(c[0]), f(c[1]), f(c[2]), f(c[3]))
}
pub fn coords(v: &[C4]) -> Vec<geos_rs::sim::Coordinate> {
    v.iter().map(coord).collect()
}
/// coordinates from the flat arguments of an item: four values each
pub fn quads(f: &[f64]) -> Vec<C4> {
    f.chunks_exact(4).map(|c| [fb(c[0]), fb(c[1]), fb(c[2]), fb(c[3])]).collect()
}
/// four ordinates of one coordinate; the kind (xy, xyz, xym, xyzm) is fixed unless mixed
pub fn quad(r: &mut Rng, pool: &[f64], kind: u64) -> Vec<f64> {
    let kind = if kind > 3 { r.below(4) } else { kind };
    let mut v = vec![*r.pick(pool), *r.pick(pool), f64::NAN, f64::NAN];
    if kind & 1 == 1 {
        v[2] = *r.pick(pool);
    }
    if kind & 2 == 2 {
        v[3] = *r.pick(pool);
    }
    v
}
/// a simple ring (not yet closed) of many vertices: a flat bottom and a rugged top, any start and direction
pub fn long_ring(r: &mut Rng, n: usize) -> Vec<(i64, i64)> {
    let n = n.max(5) as i64;
    let (cx, cy) = (r.range(-5, 5) - n / 2, r.range(-5, 5));
    let h = *r.pick(&[1i64, 2, 9, 300]);
    let mut p = vec![(cx, cy), (cx + n - 3, cy)];
    for k in (0..n - 2).rev() {
        p.push((cx + k, cy + r.range(1, h)));
    }
    if r.one_in(2) {
        p.reverse();
    }
    if r.one_in(2) {
        p.iter_mut().for_each(|c| *c = (c.1, c.0));
    }
    let k = r.us(p.len());
    p.rotate_left(k);
    p
}
/// vertices of a simple ring (not yet closed): rectangle, star-shaped or L-shaped; any start and
/// direction, now and then with a repeated vertex
pub fn simple_ring(r: &mut Rng) -> Vec<(i64, i64)> {
    let mut p: Vec<(i64, i64)> = vec![];
    let (cx, cy) = (r.range(-5, 5), r.range(-5, 5));
    match r.below(3) {
        0 => {
            let (w, h) = (r.range(1, 6), r.range(1, 6));
            for (a, b) in [(0, 0), (w, 0), (w, h), (0, h)] {
                p.push((cx + a, cy + b));
            }
        }
        1 => {
            let d = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)];
            for (k, (a, b)) in d.into_iter().enumerate() {
                if [0, 3, 5].contains(&k) || r.one_in(2) {
                    let m = r.range(1, 6);
                    p.push((cx + a * m, cy + b * m));
                }
            }
        }
        _ => {
            let (w, h) = (r.range(2, 6), r.range(2, 6));
            for (a, b) in [(0, 0), (w, 0), (w, 1), (1, 1), (1, h), (0, h)] {
                p.push((cx + a, cy + b));
            }
        }
    }
    if r.one_in(2) {
        p.reverse();
    }
    let k = r.us(p.len());
    p.rotate_left(k);
    if r.one_in(4) {
        let k = r.us(p.len());
        let q = p[k];
        p.insert(k, q);
    }
    p
}

/// an integer point as near to the segment a-b as it can be without lying on its line (or on it, one
/// time in four), between the ends in both ordinates if possible
pub fn near_line(r: &mut Rng, a: (i64, i64), b: (i64, i64)) -> (i64, i64) {
    let (dx, dy) = ((b.0 - a.0) as i128, (b.1 - a.1) as i128);
    // u * dy - v * dx = g
    let (mut r0, mut r1) = (dy.abs(), dx.abs());
    let (mut u0, mut u1, mut v0, mut v1) = (1i128, 0i128, 0i128, 1i128);
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 - q * r1);
        (u0, u1) = (u1, u0 - q * u1);
        (v0, v1) = (v1, v0 - q * v1);
    }
    if r0 == 0 {
        return a;
    }
    let g = r0;
    let (mut u, mut v) = (u0 * dy.signum(), -v0 * dx.signum());
    // multiples of the primitive direction move along the line
    let (px, py) = (dx / g, dy / g);
    if r.one_in(4) {
        (u, v) = (0, 0);
    } else if r.one_in(2) {
        (u, v) = (-u, -v);
    }
    let k = if px != 0 { -u / px } else { -v / py } + (r.f01() * g as f64) as i128;
    let (x, y) = (a.0 as i128 + u + k * px, a.1 as i128 + v + k * py);
    if u * dy - v * dx == 0 && (u, v) != (0, 0) || x.abs() > 1 << 60 || y.abs() > 1 << 60 {
        return a;
    }
    (x as i64, y as i64)
}

/// A crowd of coordinates: sizes around which a counter may wrap or another path may start.
pub fn crowd(r: &mut Rng, stride: usize, extra: u64, kind: u64) -> Vec<f64> {
    let n = match r.below(4) {
        0 | 1 => *r.pick(&[1000i64, 2000, 4096, 5000, 8192, 10_000]),
        2 => *r.pick(&[16_384i64, 20_000, 32_768, 40_000, 50_000]),
        _ => *r.pick(&[65_536i64, 65_536, 70_000]),
    } + r.range(-3, 4);
    let mark = match if kind == 4 && r.one_in(2) { 3 } else { r.below(6) } {
        0 => -1,
        1 => r.range(0, 2),
        2 => n - 1 - r.range(0, 2),
        3 => (n - 1).min((1 << r.range(8, 16)) * r.range(1, 3) + if r.one_in(2) { 0 } else { r.range(-2, 3) }),
        _ => r.range(0, n - 1),
    };
    vec![WIDE, n as f64, stride as f64, extra as f64, kind as f64, r.range(0, 1 << 30) as f64, mark as f64]
}
/// one run in so many has crowds
pub fn crowded(index: u64, every: u64) -> bool {
    index % every == every / 3
}
/// One run in twenty repeats a few of its steps many times over: answers must not wear out.
pub fn drill(r: &mut Rng, ev: &mut Vec<(u64, Item)>) {
    if !r.one_in(20) || ev.is_empty() || ev.len() > 150 {
        return;
    }
    for _ in 0..1 + r.us(4) {
        let at = r.us(ev.len());
        let again = vec![ev[at].clone(); 12 + r.us(40)];
        ev.splice(at..at, again);
    }
}
/// The length of a history: now and then a run has far more operations than usual, so that a
/// fault that needs a count to be reached is reached.
pub fn hist(r: &mut Rng, n: usize) -> usize {
    if r.one_in(50) {
        n * (4 + r.us(16))
    } else {
        n
    }
}
