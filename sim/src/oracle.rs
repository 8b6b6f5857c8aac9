//! Exact arithmetic oracles.
#![allow(dead_code)]

/// A finite double as mantissa * 2^exp
pub fn decompose(x: f64) -> (i128, i32) {
    if x == 0.0 {
        return (0, 0);
    }
    let b = x.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = (b & ((1 << 52) - 1)) as i128;
    let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
    let tz = m.trailing_zeros() as i32;
    let m = m >> tz;
    (if b >> 63 == 1 { -m } else { m }, e + tz)
}
/// The doubles as integers on one common power-of-two grid, if they all fit in 50 bits.
pub fn to_grid(v: &[f64]) -> Option<(Vec<i128>, i32)> {
    to_grid_bits(v, 50)
}
pub fn to_grid_bits(v: &[f64], bits: i32) -> Option<(Vec<i128>, i32)> {
    let d: Vec<(i128, i32)> = v.iter().map(|x| decompose(*x)).collect();
    let emin = d.iter().filter(|x| x.0 != 0).map(|x| x.1).min().unwrap_or(0);
    let mut o = vec![];
    for (m, e) in d {
        let sh = if m == 0 { 0 } else { e - emin };
        if sh > bits {
            return None;
        }
        let x = m << sh;
        if x.abs() >= 1 << bits {
            return None;
        }
        o.push(x);
    }
    Some((o, emin))
}
pub type P = (i128, i128);
pub fn orient(a: P, b: P, c: P) -> i32 {
    let d = (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0);
    d.signum() as i32
}
/// is the sign of the orientation beyond what 100 bits can tell?
pub fn doubtful(a: P, b: P, c: P) -> bool {
    let (l, r) = ((b.0 - a.0) * (c.1 - a.1), (b.1 - a.1) * (c.0 - a.0));
    let d = (l - r).unsigned_abs();
    let m = l.unsigned_abs().max(r.unsigned_abs());
    m >> 100 != 0 && d <= m >> 96
}
pub fn on_segment(p: P, a: P, b: P) -> bool {
    orient(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}

/// Exact binary numbers: sign, little-endian 32-bit limbs, power of two.
#[derive(Clone, Debug)]
pub struct Big {
    neg: bool,
    m: Vec<u32>,
    e: i32,
}
impl Big {
    pub fn zero() -> Big {
        Big { neg: false, m: vec![], e: 0 }
    }
    pub fn from(x: f64) -> Big {
        let (m, e) = decompose(x);
        let u = m.unsigned_abs();
        let mut b = Big { neg: m < 0, m: vec![u as u32, (u >> 32) as u32], e };
        b.trim();
        b
    }
    fn trim(&mut self) {
        while self.m.last() == Some(&0) {
            self.m.pop();
        }
        if self.m.is_empty() {
            self.neg = false;
            self.e = 0;
        }
    }
    pub fn is_zero(&self) -> bool {
        self.m.is_empty()
    }
    pub fn signum(&self) -> i32 {
        if self.m.is_empty() { 0 } else if self.neg { -1 } else { 1 }
    }
    pub fn neg(&self) -> Big {
        let mut b = self.clone();
        b.neg = !b.neg && !b.m.is_empty();
        b
    }
    pub fn abs(&self) -> Big {
        Big { neg: false, ..self.clone() }
    }
    /// times a power of two
    pub fn scale(&self, k: i32) -> Big {
        let mut b = self.clone();
        if !b.m.is_empty() {
            b.e += k;
        }
        b
    }
    /// the same number with exponent `e` (at most the present one)
    fn lower(&self, e: i32) -> Vec<u32> {
        let k = (self.e - e) as usize;
        let mut v = vec![0; k / 32];
        let s = k % 32;
        let mut c = 0u32;
        for &x in &self.m {
            v.push(if s == 0 { x } else { x << s | c });
            c = if s == 0 { 0 } else { x >> (32 - s) };
        }
        if c > 0 {
            v.push(c);
        }
        v
    }
    pub fn add(&self, o: &Big) -> Big {
        if self.is_zero() {
            return o.clone();
        }
        if o.is_zero() {
            return self.clone();
        }
        let e = self.e.min(o.e);
        let (a, b) = (self.lower(e), o.lower(e));
        let mut r = if self.neg == o.neg {
            Big { neg: self.neg, m: mag_add(&a, &b), e }
        } else if mag_cmp(&a, &b) != std::cmp::Ordering::Less {
            Big { neg: self.neg, m: mag_sub(&a, &b), e }
        } else {
            Big { neg: o.neg, m: mag_sub(&b, &a), e }
        };
        r.trim();
        r
    }
    pub fn sub(&self, o: &Big) -> Big {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Big) -> Big {
        let mut m = vec![0u32; self.m.len() + o.m.len()];
        for (i, &x) in self.m.iter().enumerate() {
            let mut c = 0u64;
            for (j, &y) in o.m.iter().enumerate() {
                let t = m[i + j] as u64 + x as u64 * y as u64 + c;
                m[i + j] = t as u32;
                c = t >> 32;
            }
            m[i + o.m.len()] = c as u32;
        }
        let mut r = Big { neg: self.neg != o.neg, m, e: self.e + o.e };
        r.trim();
        r
    }
    pub fn cmp(&self, o: &Big) -> std::cmp::Ordering {
        self.sub(o).signum().cmp(&0)
    }
    /// |self| <= |o| * 2^k
    pub fn within(&self, o: &Big, k: i32) -> bool {
        self.abs().cmp(&o.abs().scale(k)) != std::cmp::Ordering::Greater
    }
    /// is it an integer?
    pub fn is_int(&self) -> bool {
        if self.is_zero() || self.e >= 0 {
            return true;
        }
        let k = (-self.e) as usize;
        let (w, s) = (k / 32, k % 32);
        if w >= self.m.len() {
            return false;
        }
        self.m[..w].iter().all(|x| *x == 0) && (s == 0 || self.m[w] & ((1 << s) - 1) == 0)
    }
    /// exponent of the leading bit
    pub fn log2(&self) -> i32 {
        match self.m.last() {
            None => i32::MIN,
            Some(t) => self.e + 32 * self.m.len() as i32 - 1 - t.leading_zeros() as i32,
        }
    }
}
fn mag_cmp(a: &[u32], b: &[u32]) -> std::cmp::Ordering {
    let n = a.len().max(b.len());
    for k in (0..n).rev() {
        let (x, y) = (a.get(k).copied().unwrap_or(0), b.get(k).copied().unwrap_or(0));
        if x != y {
            return x.cmp(&y);
        }
    }
    std::cmp::Ordering::Equal
}
fn mag_add(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut v = vec![];
    let mut c = 0u64;
    for k in 0..a.len().max(b.len()) {
        let t = a.get(k).copied().unwrap_or(0) as u64 + b.get(k).copied().unwrap_or(0) as u64 + c;
        v.push(t as u32);
        c = t >> 32;
    }
    v.push(c as u32);
    v
}
fn mag_sub(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut v = vec![];
    let mut c = 0i64;
    for k in 0..a.len() {
        let mut t = a[k] as i64 - b.get(k).copied().unwrap_or(0) as i64 + c;
        c = 0;
        if t < 0 {
            t += 1 << 32;
            c = -1;
        }
        v.push(t as u32);
    }
    v
}
