//! DE-9IM matrices: partial matrices computed by several nodes and merged, relation predicates.
use super::common::*;
use crate::case::{Case, Item};
use crate::check;
use crate::rng::Rng;
use crate::rt::*;
use crate::run::Def;
use geos_rs::sim::*;
use std::sync::Arc;

const OPS: &[&str] = &[
    "set_cell", "raise_cell", "raise_cell_valid", "raise_string", "set_string", "set_all", "transpose",
    "merge_new", "send", "recv", "checkpoint", "crash_restart", "query", "match", "match_static", "converged",
];
const SET: usize = 0;
const RAISE: usize = 1;
const RAISEV: usize = 2;
const RSTR: usize = 3;
const SSTR: usize = 4;
const ALL: usize = 5;
const TRANS: usize = 6;
const MERGE: usize = 7;
const SEND: usize = 8;
const RECV: usize = 9;
const CKPT: usize = 10;
const CRASHR: usize = 11;
const QUERY: usize = 12;
const MATCH: usize = 13;
const MATCHS: usize = 14;
const CONV: usize = 15;
const PROBES: &[&str] = &["merge changed a cell", "duplicate merge", "restart", "touches", "crosses", "within", "contains", "covers", "coveredBy", "equals", "overlaps", "disjoint", "converged", "short or odd string", "pattern matched", "pattern not matched"];

const SYM: &[(char, i32)] = &[('F', -1), ('T', -2), ('*', -3), ('0', 0), ('1', 1), ('2', 2)];
// characters for strings: the symbols, lower case, and junk (junk leaves the cell alone)
const CH: &[char] = &['F', 'T', '*', '0', '1', '2', 'f', 't', '3', 'x', ' ', 'é'];
type M = [i32; 9];
const EMPTY: M = [-1; 9];

fn value(c: char) -> Option<i32> {
    SYM.iter().find(|s| s.0 == c || s.0.to_ascii_lowercase() == c).map(|s| s.1)
}
fn symbol(v: i32) -> char {
    SYM.iter().find(|s| s.1 == v).map(|s| s.0).unwrap()
}
fn text(v: &[i64]) -> String {
    v.iter().map(|k| CH[k.rem_euclid(CH.len() as i64) as usize]).collect()
}
/// the OGC pattern language
fn cell(v: i32, c: char) -> bool {
    match c {
        '*' => true,
        'T' => v >= 0 || v == -2,
        'F' => v == -1,
        '0' | '1' | '2' => v == c as i32 - '0' as i32,
        _ => false,
    }
}
fn pat(m: &M, p: &str) -> bool {
    let c: Vec<char> = p.chars().collect();
    p.len() == 9 && c.len() == 9 && (0..9).all(|k| cell(m[k], c[k]))
}
fn any(m: &M, p: &[&str]) -> bool {
    p.iter().any(|x| pat(m, x))
}
const COVERS: &[&str] = &["T*****FF*", "*T****FF*", "***T**FF*", "****T*FF*"];
const COVBY: &[&str] = &["T*F**F***", "*TF**F***", "**FT*F***", "**F*TF***"];
const TOUCH: &[&str] = &["FT*******", "F**T*****", "F***T****"];

fn predicates(m: &M, a: i32, b: i32) -> [bool; 10] {
    let geo = |d: i32| (0..=2).contains(&d);
    let both = geo(a) && geo(b);
    let crosses = match (a, b) {
        (0, 1) | (0, 2) | (1, 2) => pat(m, "T*T******"),
        (1, 0) | (2, 0) | (2, 1) => pat(m, "T*****T**"),
        (1, 1) => pat(m, "0********"),
        _ => false,
    };
    let overlaps = match (a, b) {
        (0, 0) | (2, 2) => pat(m, "T*T***T**"),
        (1, 1) => pat(m, "1*T***T**"),
        _ => false,
    };
    [
        pat(m, "FF*FF****"),
        !pat(m, "FF*FF****"),
        both && !(a == 0 && b == 0) && any(m, TOUCH),
        crosses,
        pat(m, "T*F**F***"),
        pat(m, "T*****FF*"),
        any(m, COVERS),
        any(m, COVBY),
        a == b && pat(m, "T*F**FFF*"),
        overlaps,
    ]
}
const NAMES: [&str; 10] = ["disjoint", "intersects", "touches", "crosses", "within", "contains", "covers", "coveredBy", "equals", "overlaps"];
const PR: [Option<usize>; 10] = [Some(11), None, Some(3), Some(4), Some(5), Some(6), Some(7), Some(8), Some(9), Some(10)];

fn read(e: &IntersectionMatrix) -> M {
    let mut m = EMPTY;
    for k in 0..9 {
        m[k] = e.get(k / 3, k % 3);
    }
    m
}
fn show(m: &M) -> String {
    m.iter().map(|v| symbol(*v)).collect()
}
fn query(cx: &Cx, e: &IntersectionMatrix, m: &M, a: i32, b: i32) -> Res {
    let got = cx.must("predicates", || {
        [
            e.is_disjoint(), e.is_intersects(), e.is_touches(a, b), e.is_crosses(a, b), e.is_within(),
            e.is_contains(), e.is_covers(), e.is_covered_by(), e.is_equals(a, b), e.is_overlaps(a, b),
        ]
    })?;
    let want = predicates(m, a, b);
    for k in 0..10 {
        check!(got[k] == want[k], "predicate: {} = {} for {} with dimensions {a}/{b}", NAMES[k], got[k], show(m));
        if let (true, Some(p)) = (want[k], PR[k]) {
            cx.probe(p);
        }
        cx.log(got[k] as u64);
    }
    agree("after predicates", e, m)
}
fn agree(what: &str, e: &IntersectionMatrix, m: &M) -> Res {
    let g = read(e);
    check!(g == *m, "state: {what}: matrix is {g:?}, expected {m:?}");
    Ok(())
}
struct Node {
    e: IntersectionMatrix,
    m: M,
    ck: (String, M),
    log: M,
}
struct W {
    nodes: Vec<Own<Node>>,
    mail: Own<Vec<Option<Arc<(IntersectionMatrix, M)>>>>,
}
fn rc(it: &Item) -> (usize, usize, i32) {
    (it.ii(0).rem_euclid(3) as usize, it.ii(1).rem_euclid(3) as usize, SYM[it.ii(2).rem_euclid(6) as usize].1)
}
fn copy(cx: &Cx, e: &IntersectionMatrix) -> Result<IntersectionMatrix, Stop> {
    cx.must("copy", || IntersectionMatrix::new_from_intersection_matrix(e))
}
fn raise(m: &mut M, k: usize, v: i32) {
    m[k] = m[k].max(v)
}
impl W {
    fn step(&self, cx: &Cx, it: &Item) -> Res {
        let n = self.nodes[cx.client].get();
        let op = OPS[it.op];
        match it.op {
            SET => {
                let (r, c, v) = rc(it);
                cx.must(op, || n.e.set_row_column_value(r, c, v))?;
                n.m[3 * r + c] = v;
            }
            RAISE | RAISEV => {
                let (r, c, v) = rc(it);
                cx.must(op, || if it.op == RAISE { n.e.set_at_least_row_column_dimension(r, c, v) } else { n.e.set_at_least_row_column_dimension_if_valid(r, c, v) })?;
                raise(&mut n.m, 3 * r + c, v);
                raise(&mut n.log, 3 * r + c, v);
            }
            RSTR | SSTR => {
                let s = text(&it.i);
                if s.chars().count() > 9 {
                    return Ok(());
                }
                if s.len() != 9 || s.chars().any(|c| value(c).is_none()) {
                    cx.probe(13);
                }
                let t = s.clone();
                cx.must(op, || if it.op == RSTR { n.e.set_at_least_string(t) } else { n.e.set_string(t) })?;
                for (k, c) in s.chars().enumerate() {
                    if let Some(v) = value(c) {
                        if it.op == RSTR {
                            raise(&mut n.m, k, v);
                            raise(&mut n.log, k, v);
                        } else {
                            n.m[k] = v
                        }
                    }
                }
            }
            ALL => {
                let v = rc(it).2;
                cx.must(op, || n.e.set_all(v))?;
                n.m = [v; 9];
            }
            TRANS => {
                cx.must(op, || n.e.transpose())?;
                let o = n.m;
                for k in 0..9 {
                    n.m[k] = o[3 * (k % 3) + k / 3];
                }
            }
            MERGE => {
                let s: String = it.i.iter().take(9).map(|k| SYM[k.rem_euclid(6) as usize].0).collect();
                let t = s.clone();
                let e = cx.must(op, || IntersectionMatrix::new_with_elements(t))?;
                let mut m = EMPTY;
                for (k, c) in s.chars().enumerate() {
                    m[k] = value(c).unwrap();
                }
                agree("matrix from symbols", &e, &m)?;
                cx.must(op, || n.e.add(&e))?;
                agree("merged argument", &e, &m)?;
                for k in 0..9 {
                    raise(&mut n.m, k, m[k]);
                }
            }
            SEND => {
                let k = it.ii(0) as usize;
                let c = if it.ii(1) == 0 {
                    let t = cx.must(op, || n.e.to_string())?;
                    check!(t == show(&n.m), "text: matrix prints as {t:?}, expected {:?}", show(&n.m));
                    cx.must(op, || IntersectionMatrix::new_with_elements(t))?
                } else {
                    copy(cx, &n.e)?
                };
                let mb = self.mail.get();
                while mb.len() <= k {
                    mb.push(None);
                }
                mb[k] = Some(Arc::new((c, n.m)));
            }
            RECV => {
                let Some(Some(a)) = self.mail.get().get(it.ii(0) as usize).cloned() else { return Ok(()) };
                let (e, m) = &*a;
                let before = n.m;
                cx.must(op, || n.e.add(e))?;
                for k in 0..9 {
                    raise(&mut n.m, k, m[k]);
                }
                agree("merged message", e, m)?;
                cx.probe((before == n.m) as usize);
                cx.nontrivial();
            }
            CKPT => {
                let t = cx.must(op, || n.e.to_string())?;
                n.ck = (t, n.m);
            }
            CRASHR => {
                let (t, m) = n.ck.clone();
                if it.ii(0) == 0 {
                    n.e = cx.must(op, || IntersectionMatrix::new_with_elements(t))?;
                } else {
                    cx.must(op, || n.e.set_string(t))?;
                }
                n.m = m;
                cx.probe(2);
                cx.nontrivial();
            }
            QUERY => {
                query(cx, &n.e, &n.m, it.ii(0) as i32, it.ii(1) as i32)?;
                let c = copy(cx, &n.e)?;
                let eq = cx.must("equals", || (c.equals(&n.e), n.e.equals(&c)))?;
                check!(eq == (true, true), "equality: a copy of {} is not equal to it", show(&n.m));
                let all: Vec<_> = self.mail.get().iter().flatten().cloned().collect();
                for o in all {
                    let q = cx.must("equals", || n.e.equals(&o.0))?;
                    check!(q == (o.1 == n.m), "equality: equals = {q} for {} and {}", show(&n.m), show(&o.1));
                }
                let mut d = n.m;
                let k = it.ii(2).rem_euclid(9) as usize;
                d[k] = SYM[it.ii(3).rem_euclid(6) as usize].1;
                let mut c = copy(cx, &n.e)?;
                let q = cx.must("equals", || {
                    c.set_row_column_value(k / 3, k % 3, d[k]);
                    (c.equals(&n.e), n.e.equals(&c))
                })?;
                check!(q == (d == n.m, d == n.m), "equality: equals = {q:?} for {} and {}", show(&n.m), show(&d));
            }
            MATCH | MATCHS => {
                // mostly patterns derived from the matrix, so that both answers are common
                let mut p: Vec<char> = vec![];
                for k in 0..9 {
                    let a = it.ii(k);
                    p.push(match a.rem_euclid(8) {
                        0..=3 => {
                            let s = symbol(n.m[k]);
                            if s >= '0' && s <= '2' && a % 2 == 0 { 'T' } else { s }
                        }
                        4 | 5 => '*',
                        _ => CH[(a / 8).rem_euclid(CH.len() as i64) as usize],
                    });
                }
                match it.ii(9) {
                    1 => {
                        p.pop();
                    }
                    2 => p.push('*'),
                    3 => p.clear(),
                    _ => {}
                }
                let p: String = p.into_iter().collect();
                let q = p.clone();
                let got = if it.op == MATCH {
                    cx.must(op, || n.e.matches_string(q))?
                } else {
                    let s = show(&n.m);
                    cx.must(op, || IntersectionMatrix::matches_string_string(s, q))?
                };
                let want = pat(&n.m, &p);
                check!(got == want, "match: {} against {p:?} = {got}", show(&n.m));
                for (k, c) in p.chars().enumerate().take(9) {
                    let g = cx.must(op, || IntersectionMatrix::matches_i32_char(n.m[k], c))?;
                    check!(g == cell(n.m[k], c), "match: value {} against {c:?} = {g}", n.m[k]);
                }
                cx.probe(if want { 14 } else { 15 });
            }
            CONV => {
                let mut all = EMPTY;
                for x in &self.nodes {
                    for k in 0..9 {
                        raise(&mut all, k, x.get().log[k]);
                    }
                }
                if self.nodes.iter().all(|x| x.get().m == all) {
                    cx.probe(12);
                    for (k, o) in self.nodes.iter().enumerate() {
                        agree(&format!("node {k} after anti-entropy"), &o.get().e, &all)?;
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
}
impl World for W {
    fn exec(&self, cx: &Cx, it: &Item) -> Res {
        let r = self.step(cx, it);
        let n = self.nodes[cx.client].get();
        if let Err(Stop::Oom) = r {
            n.m = read(&n.e);
            return r;
        }
        r?;
        agree(OPS[it.op], &n.e, &n.m)?;
        for v in n.m {
            cx.log(v as u64);
        }
        Ok(())
    }
    fn finish(&self, cx: &Cx) -> Res {
        for a in &self.nodes {
            let n = a.get();
            for d in 0..9 {
                query(cx, &n.e, &n.m, d / 3, d % 3)?;
            }
            let mut t = copy(cx, &n.e)?;
            cx.must("transpose", || t.transpose())?;
            let w = predicates(&n.m, 1, 2);
            let g = cx.must("predicates", || (t.is_within(), t.is_contains(), t.is_covers(), t.is_covered_by(), t.is_disjoint()))?;
            check!(g == (w[5], w[4], w[7], w[6], w[0]), "duality: transposed predicates {g:?} for {}", show(&n.m));
        }
        Ok(())
    }
}

fn gen(r: &mut Rng, index: u64) -> Case {
    let nodes = 2 + r.us(3);
    let mut g = Gossip::new(r, nodes);
    let mono = index % 2 == 0;
    let mut log = vec![];
    // swarm: bias the cell values of this run
    let bias: Vec<i64> = (0..1 + r.us(6)).map(|_| r.range(0, 5)).collect();
    let v = |r: &mut Rng| if r.one_in(4) { r.range(0, 5) } else { *r.pick(&bias) };
    let n = 4 + r.us(24);
    let n = hist(r, n);
    for _ in 0..n {
        let c = r.us(nodes);
        match r.below(if mono { 10 } else { 17 }) {
            0..=1 => {
                let i = vec![r.range(0, 2), r.range(0, 2), v(r)];
                let it = item(c, if r.one_in(2) { RAISE } else { RAISEV }, i, vec![]);
                log.push(it.clone());
                g.at(it, r);
            }
            2 => {
                let n = if r.one_in(3) { r.us(10) } else { 9 };
                let i = (0..n).map(|_| if r.one_in(10) { r.range(0, 11) } else { v(r) }).collect();
                let it = item(c, RSTR, i, vec![]);
                log.push(it.clone());
                g.at(it, r);
            }
            3..=5 => g.send(r, c, SEND, RECV),
            6 => g.at(item(c, CKPT, vec![], vec![]), r),
            7 => g.crash(r, c, CRASHR),
            8 | 10 => {
                let hi = if r.one_in(8) { -3 } else { 0 };
                let i = vec![r.range(hi, 2), r.range(hi, 2), r.range(0, 8), r.range(0, 5)];
                g.at(item(c, QUERY, i, vec![]), r)
            }
            9 | 11 => {
                let mut i: Vec<i64> = (0..9).map(|_| if r.one_in(9) { r.range(0, 95) } else { r.range(0, 5) }).collect();
                i.push(r.range(0, 20));
                g.at(item(c, if r.one_in(2) { MATCH } else { MATCHS }, i, vec![]), r)
            }
            12 => {
                let i = vec![r.range(0, 2), r.range(0, 2), v(r)];
                g.at(item(c, SET, i, vec![]), r)
            }
            13 => {
                let n = if r.one_in(3) { r.us(10) } else { 9 };
                let i = (0..n).map(|_| if r.one_in(10) { r.range(0, 11) } else { v(r) }).collect();
                g.at(item(c, SSTR, i, vec![]), r)
            }
            14 => {
                let i = vec![0, 0, v(r)];
                g.at(item(c, ALL, i, vec![]), r)
            }
            15 => g.at(item(c, TRANS, vec![], vec![]), r),
            _ => {
                let i = (0..9).map(|_| v(r)).collect();
                g.at(item(c, MERGE, i, vec![]), r)
            }
        }
    }
    let heal = if mono && r.one_in(2) { Some((log, SEND, RECV, CONV)) } else { None };
    g.drill(r);
    g.build(r, &Mix { threads: 0.3, oom: 0.15, max_gap: 150 }, heal)
}
fn clients(c: &Case) -> usize {
    c.cfg.first().copied().unwrap_or(1).clamp(1, 8) as usize
}
fn make(c: &Case) -> Box<dyn World> {
    Box::new(W {
        nodes: (0..clients(c)).map(|_| Own::new(Node { e: IntersectionMatrix::default(), m: EMPTY, ck: ("FFFFFFFFF".into(), EMPTY), log: EMPTY })).collect(),
        mail: Own::new(vec![]),
    })
}
pub const DEF: Def = Def {
    id: "C05",
    ops: OPS,
    gen,
    make,
    clients,
    reference: None,
    quick_runs: 120_000,
    thorough_runs: 2_000_000,
    probes: PROBES,
    rule: "a run is non-trivial if at least one node merged a delivered partial matrix or restarted from a checkpoint; distinct by event-log hash",
    real: &["IntersectionMatrix", "Dimension", "Location"],
    stub: &["network, checkpoint store and node processes (simulated)"],
};
