//! Coordinate lists: streams of coordinates appended, inserted, merged and restored.
use super::common::*;
use crate::case::{Case, Item, WIDE};
use crate::check;
use crate::rng::Rng;
use crate::rt::*;
use crate::run::Def;
use geos_rs::sim::*;
use std::sync::Arc;

const OPS: &[&str] = &[
    "new", "add", "add_array", "add_direction", "add_section", "insert", "add_all", "close_ring", "read",
    "send", "recv", "checkpoint", "crash_restart",
];
const NEW: usize = 0;
const ADD: usize = 1;
const ARR: usize = 2;
const DIR: usize = 3;
const SECT: usize = 4;
const INS: usize = 5;
const ALL: usize = 6;
const CLOSE: usize = 7;
const READ: usize = 8;
const SEND: usize = 9;
const RECV: usize = 10;
const CKPT: usize = 11;
const CRASHR: usize = 12;
const PROBES: &[&str] = &[
    "repeated coordinate collapsed", "repeated coordinate kept", "insert collapsed", "descending section", "reverse add",
    "ring closed", "ring already closed", "allocation failed inside an update", "operation on an empty list", "restored",
];

type M = Vec<C4>;
struct Node {
    e: CoordinateList,
    m: M,
    ck: (Vec<Coordinate>, M),
}
struct W {
    nodes: Vec<Own<Node>>,
    mail: Own<Vec<Option<Arc<(CoordinateList, M)>>>>,
}
fn push(cx: &Cx, m: &mut M, c: C4, rep: bool) {
    if m.last().is_some_and(|l| eq2(l, &c)) {
        cx.probe(rep as usize);
        if !rep {
            return;
        }
    }
    m.push(c);
}
fn agree(what: &str, e: &CoordinateList, m: &M) -> Res {
    let g = bits_of(&e.to_coordinate_array());
    check!(g == *m, "content: {what}: list is {}, expected {}", show4(&g), show4(m));
    Ok(())
}
impl W {
    /// apply the additions; after an allocation failure any prefix of them may have been made
    fn step(&self, cx: &Cx, it: &Item, trail: &mut Vec<M>) -> Res {
        let n = self.nodes[cx.client].get();
        let op = OPS[it.op];
        let rep = it.ii(0) == 1;
        let q = quads(&it.f);
        let m = &mut n.m;
        if m.is_empty() {
            cx.probe(8);
        }
        if m.len() > 4000 && cx.wide() == 0 && matches!(it.op, ARR | DIR | SECT | ALL) {
            return Ok(());
        }
        let note = q.len() * (m.len() + q.len()) <= 2_000_000;
        let mut add = |m: &mut M, c: C4| {
            push(cx, m, c, rep);
            if note {
                trail.push(m.clone());
            }
        };
        match it.op {
            NEW => {
                let v = coords(&q);
                let e = cx.must(op, || if rep { CoordinateList::new(v) } else { CoordinateList::new_with_repeated(v, false) })?;
                n.e = e;
                m.clear();
                for c in &q {
                    push(cx, m, *c, rep);
                }
            }
            ADD => {
                let Some(c) = q.first() else { return Ok(()) };
                let v = coord(c);
                add(m, *c);
                cx.must(op, || n.e.add_coordinate_repeated(v, rep))?;
            }
            ARR | DIR => {
                let v = coords(&q);
                let fwd = it.op == ARR || it.ii(1) == 1;
                if fwd {
                    q.iter().for_each(|c| add(m, *c));
                } else {
                    cx.probe(4);
                    q.iter().rev().for_each(|c| add(m, *c));
                }
                let r = cx.must(op, || if it.op == ARR { n.e.add_coordinate_list_repeated(&v, rep) } else { n.e.add_coordinate_list_repeated_direction(&v, rep, fwd) })?;
                check!(r, "result: adding returned false");
                check!(bits_of(&v) == q, "argument: the array that was added has changed");
            }
            SECT => {
                let l = q.len() as i64;
                let (a, b) = (it.ii(1).clamp(0, l) as usize, it.ii(2).clamp(0, l) as usize);
                if a > b && a == q.len() {
                    return Ok(());
                }
                let v = coords(&q);
                if a <= b {
                    (a..b).for_each(|k| add(m, q[k]));
                } else {
                    cx.probe(3);
                    (b + 1..=a).rev().for_each(|k| add(m, q[k]));
                }
                let r = cx.must(op, || n.e.add_coordinate_list_repeated_start_end(&v, rep, a, b))?;
                check!(r, "result: adding returned false");
                check!(bits_of(&v) == q, "argument: the array that was added has changed");
            }
            INS => {
                let Some(c) = q.first() else { return Ok(()) };
                let k = it.ii(1).rem_euclid(m.len() as i64 + 1) as usize;
                let v = coord(c);
                let near = (k > 0 && eq2(&m[k - 1], c)) || (k < m.len() && eq2(&m[k], c));
                if near {
                    cx.probe(2);
                }
                if rep || !near {
                    m.insert(k, *c);
                }
                trail.push(m.clone());
                cx.must(op, || n.e.add_index_coordinate_repeated(k, v, rep))?;
            }
            ALL => {
                let v = coords(&q);
                q.iter().for_each(|c| add(m, *c));
                let r = cx.must(op, || n.e.add_all(v, rep))?;
                check!(r != q.is_empty(), "result: add_all of {} coordinates returned {r}", q.len());
            }
            CLOSE => {
                if let Some(f) = m.first().copied() {
                    if eq2(m.last().unwrap(), &f) {
                        cx.probe(6)
                    } else {
                        cx.probe(5);
                        m.push(f)
                    }
                }
                trail.push(m.clone());
                cx.must(op, || n.e.close_ring())?;
            }
            READ => {
                let mut rev = m.clone();
                rev.reverse();
                let (a, f, b) = cx.must(op, || (n.e.to_coordinate_array(), n.e.to_coordinate_array_forward(true), n.e.to_coordinate_array_forward(false)))?;
                check!(bits_of(&a) == *m && bits_of(&f) == *m, "content: forward array is {}, expected {}", show4(&bits_of(&f)), show4(m));
                check!(bits_of(&b) == rev, "content: reverse array is {}, expected {}", show4(&bits_of(&b)), show4(&rev));
                for k in (0..m.len() + 2).step_by(1 + m.len() / 2000).chain([m.len() / 2, m.len().saturating_sub(1), m.len(), m.len() + 1]) {
                    let c = cx.must(op, || n.e.get_coordinate(k))?;
                    check!(c.map(|c| bits(&c)) == m.get(k).copied(), "content: coordinate {k} of {} is {:?}", show4(m), c.map(|c| bits(&c)));
                }
            }
            SEND => {
                let k = it.ii(0) as usize;
                let c = cx.must(op, || n.e.clone())?;
                let mb = self.mail.get();
                while mb.len() <= k {
                    mb.push(None);
                }
                mb[k] = Some(Arc::new((c, m.clone())));
            }
            RECV => {
                let Some(Some(a)) = self.mail.get().get(it.ii(0) as usize).cloned() else { return Ok(()) };
                if m.len() + a.1.len() > if cx.wide() > 0 { 200_000 } else { 1500 } {
                    return Ok(());
                }
                let fwd = it.ii(1) % 2 == 0;
                let rep = it.ii(1) > 1;
                let v = cx.must(op, || a.0.to_coordinate_array_forward(fwd))?;
                let mut w = a.1.clone();
                if !fwd {
                    w.reverse();
                }
                check!(bits_of(&v) == w, "content: received list is {}, expected {}", show4(&bits_of(&v)), show4(&w));
                for c in &w {
                    push(cx, m, *c, rep);
                    if w.len() * m.len() <= 2_000_000 {
                        trail.push(m.clone());
                    }
                }
                cx.must(op, || n.e.add_all(v, rep))?;
                agree("message after merge", &a.0, &a.1)?;
                cx.nontrivial();
            }
            CKPT => {
                let v = cx.must(op, || n.e.to_coordinate_array())?;
                n.ck = (v, m.clone());
            }
            CRASHR => {
                let (v, w) = n.ck.clone();
                let e = cx.must(op, || CoordinateList::new(v))?;
                n.e = e;
                *m = w;
                cx.probe(9);
                cx.nontrivial();
            }
            _ => {}
        }
        Ok(())
    }
}
impl World for W {
    fn exec(&self, cx: &Cx, it: &Item) -> Res {
        let before = self.nodes[cx.client].get().m.clone();
        let mut trail = vec![];
        let r = self.step(cx, it, &mut trail);
        let n = self.nodes[cx.client].get();
        let long = [ARR, DIR, SECT, ALL, RECV].contains(&it.op) && cx.wide() > 0;
        if let Err(Stop::Oom) = r {
            cx.calm();
            let g = bits_of(&n.e.to_coordinate_array());
            check!(
                g == before || trail.contains(&g) || long && g.len() >= before.len() && n.m.starts_with(&g),
                "fault: after a failed allocation in {} the list is {}, which is no prefix of the update of {}", OPS[it.op], show4(&g), show4(&before)
            );
            cx.probe(7);
            cx.nontrivial();
            n.m = g;
            return r;
        }
        r?;
        cx.calm();
        agree(OPS[it.op], &n.e, &n.m)?;
        cx.log(n.m.len() as u64);
        for c in n.m.iter().flatten() {
            cx.log(*c);
        }
        Ok(())
    }
    fn finish(&self, _cx: &Cx) -> Res {
        for (k, n) in self.nodes.iter().enumerate() {
            agree(&format!("node {k} at the end"), &n.get().e, &n.get().m)?;
        }
        for a in self.mail.get().iter().flatten() {
            agree("message at the end", &a.0, &a.1)?;
        }
        Ok(())
    }
}
fn gen(r: &mut Rng, index: u64) -> Case {
    let wide = crowded(index, 801);
    let nodes = 1 + r.us(4);
    let mut g = Gossip::new(r, nodes);
    let st = style(r);
    let mut pool: Vec<f64> = (0..2 + r.us(3)).map(|_| val(r, st)).collect();
    near(r, &mut pool, false);
    if r.one_in(8) {
        pool.push(*r.pick(&[0.0, -0.0, f64::INFINITY, f64::NAN]));
    }
    let kind = r.below(5);
    let many = |r: &mut Rng| -> Vec<f64> {
        if wide && r.chance(0.6) {
            let (extra, k) = (r.below(4), r.below(5));
            return crowd(r, 4, extra, k);
        }
        (0..r.count(9)).flat_map(|_| quad(r, &pool, kind)).collect()
    };
    let n = 3 + r.us(20);
    let n = if wide { n } else { hist(r, n) };
    for _ in 0..n {
        let c = r.us(nodes);
        let rep = r.one_in(2) as i64;
        let it = match r.below(14) {
            0 => item(c, NEW, vec![rep], many(r)),
            1 | 2 => item(c, ADD, vec![rep], quad(r, &pool, kind)),
            3 => item(c, ARR, vec![rep], many(r)),
            4 => item(c, DIR, vec![rep, r.range(0, 1)], many(r)),
            5 => {
                let f = many(r);
                let l = if f.first() == Some(&WIDE) { f[1] as i64 } else { f.len() as i64 / 4 };
                item(c, SECT, vec![rep, r.range(0, l), r.range(0, l)], f)
            }
            6 | 7 => item(c, INS, vec![rep, if wide { r.range(0, 1 << 20) } else { place(r, 20) }], quad(r, &pool, kind)),
            8 => item(c, ALL, vec![rep], many(r)),
            9 => item(c, CLOSE, vec![], vec![]),
            10 => item(c, READ, vec![], vec![]),
            11 => item(c, CKPT, vec![], vec![]),
            12 => {
                g.crash(r, c, CRASHR);
                continue;
            }
            _ => {
                g.send(r, c, SEND, RECV);
                continue;
            }
        };
        g.at(it, r);
    }
    if !wide {
        g.drill(r);
    }
    g.build(r, &Mix { threads: 0.3, oom: 0.4, max_gap: 300 }, None)
}
fn clients(c: &Case) -> usize {
    c.cfg.first().copied().unwrap_or(1).clamp(1, 8) as usize
}
fn make(c: &Case) -> Box<dyn World> {
    Box::new(W {
        nodes: (0..clients(c)).map(|_| Own::new(Node { e: CoordinateList::default(), m: vec![], ck: (vec![], vec![]) })).collect(),
        mail: Own::new(vec![]),
    })
}
pub const DEF: Def = Def {
    id: "C09",
    ops: OPS,
    gen,
    make,
    clients,
    reference: None,
    quick_runs: 200_000,
    thorough_runs: 2_000_000,
    probes: PROBES,
    rule: "a run is non-trivial if a list merged a delivered list, was restored after a crash, or had an allocation fail inside an update; distinct by event-log hash",
    real: &["CoordinateList", "Coordinate"],
    stub: &["network, checkpoint store and node processes (simulated)", "allocator (real memory behind a seam that injects failures)"],
};
