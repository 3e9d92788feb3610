//! C09, C12, C13: what one question, answered or failed, leaves behind for the next. Between the
//! two questions nothing is asked.
use crate::engine::*;
use crate::p_binary::{data, invalid, push, same_proof, same_root, Store, Tree};
use crate::p_sparse::e2s;
use crate::refm::*;
use crate::store::*;
use crate::Tier;
use std::sync::Arc;

fn model(n: u64) -> BinModel {
    let mut m = BinModel::new();
    (0..n).for_each(|i| m.push(&data(4, i)));
    m
}
fn grow(t: &mut Tree, from: u64, to: u64) -> Res {
    (from..to).try_for_each(|i| push(t, &data(4, i)))
}
/// questions to a tree of n leaves: 0 the root, i + 1 the proof of i
fn questions(n: u64) -> u64 {
    n + 2
}
fn ask(t: &Tree, m: &BinModel, n: u64, q: u64) -> Res {
    match q {
        0 => same_root(t, &m.root_at(n)),
        q if q > n => invalid(t, q - 1, n),
        q => same_proof(t, q - 1, n, &m.root_at(n), &m.proof_at(q - 1, n)),
    }
}
fn text(q: u64) -> String {
    match q {
        0 => "root".into(),
        q => format!("prove({})", q - 1),
    }
}

pub fn c09_order(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    let max = t.pick(48u64, 90);
    let m = Arc::new(model(1100));
    let m1 = m.clone();
    v.push(Space::new(
        format!("one question, pushes, another question, up to {max} leaves, live or loaded"),
        (max + 1) * (max + 1) * 2,
        move |i, acc| {
            let (a, b, loaded) = (max - i / 2 / (max + 1), i / 2 % (max + 1), i % 2 == 1);
            if b < a {
                return Ok(());
            }
            for p in 0..questions(a) {
                for q in 0..questions(b) {
                    let st = Store::new();
                    let mut t = Tree::new(st.clone());
                    grow(&mut t, 0, a)?;
                    if loaded {
                        t = Tree::load(st, a).map_err(|e| format!("load({a}): {:?}", e))?;
                    }
                    ask(&t, &m1, a, p)?;
                    grow(&mut t, a, b)?;
                    ask(&t, &m1, b, q).map_err(|e| format!("after {} of {a} leaves: {e}", text(p)))?;
                }
                acc.beat();
                acc.step(questions(b) * (b + 2));
                acc.trace(questions(b));
                acc.state(&("two", a, b, p, loaded));
            }
            Ok(())
        },
        move |i| format!("{} leaves, a question, {} leaves, another", max - i / 2 / (max + 1), i / 2 % (max + 1)),
    ));
    let max = t.pick(11u64, 17);
    let m2 = m.clone();
    v.push(Space::new(
        format!("a question, pushes, two more questions, up to {max} leaves"),
        (max + 1) * (max + 1),
        move |i, acc| {
            let (a, b) = (max - i / (max + 1), i % (max + 1));
            if b < a {
                return Ok(());
            }
            for p in 0..questions(a) {
                for q in 0..questions(b) {
                    for r in 0..questions(b) {
                        let mut t = Tree::new(Store::new());
                        grow(&mut t, 0, a)?;
                        ask(&t, &m2, a, p)?;
                        grow(&mut t, a, b)?;
                        ask(&t, &m2, b, q)
                            .and_then(|_| ask(&t, &m2, b, r))
                            .map_err(|e| format!("{} of {a} leaves, then of {b} leaves {} and {}: {e}", text(p), text(q), text(r)))?;
                    }
                }
                acc.beat();
                acc.step(questions(b) * questions(b) * (b + 3));
                acc.trace(questions(b) * questions(b));
                acc.state(&("three", a, b, p));
            }
            Ok(())
        },
        move |i| format!("{} leaves, a question, {} leaves, two more", max - i / (max + 1), i % (max + 1)),
    ));
    let max = t.pick(280u64, 1100);
    v.push(Space::new(
        format!("the same question at every 1st to 9th size up to {max}"),
        max * 9,
        move |i, acc| {
            let (leaf, by) = (max - 1 - i / 9, 1 + i % 9);
            let mut t = Tree::new(Store::new());
            for n in 0..max {
                if n >= leaf && (n - leaf) % by == 0 {
                    ask(&t, &m, n, leaf + 1).map_err(|e| format!("asked before at every {by} leaves: {e}"))?;
                    acc.state(&("same", leaf, by, n));
                }
                push(&mut t, &data(4, n))?;
            }
            acc.step(max);
            acc.trace(1);
            Ok(())
        },
        move |i| format!("prove({}) at every {} leaves", max - 1 - i / 9, 1 + i % 9),
    ));
    v
}

pub fn c12_order(t: Tier) -> Vec<Space<'static>> {
    let (max, more) = t.pick((20u64, 12u64), (30, 20));
    let m = model(64);
    vec![Space::new(
        format!("a failing proof, push or load of up to {max} leaves, up to {more} pushes, then one question"),
        (max + 1) * (more + 1),
        move |i, acc| {
            let (a, d) = (max - i / (more + 1), i % (more + 1));
            // 0 push, 1 push of another leaf, 2 load, then the proofs
            for op in 0..a + 3 {
                for mode in [Mode::Before, Mode::After] {
                    for c in 1.. {
                        let mut hit = false;
                        for q in 0..questions(a + d) {
                            let st = Store::new();
                            let mut t = Tree::new(st.clone());
                            grow(&mut t, 0, a)?;
                            st.arm(c, mode);
                            let r = match op {
                                0 => t.push(&data(4, a)),
                                1 => t.push(&data(7, a)),
                                2 => Tree::load(st.clone(), a).map(|_| ()),
                                _ => t.prove(op - 3).map(|_| ()),
                            };
                            hit = st.disarm();
                            if r.is_ok() == hit {
                                return Err(format!("with storage call {c} failing: {:?}", r.map_err(e2s)));
                            }
                            if !hit {
                                break;
                            }
                            acc.eval(1);
                            grow(&mut t, a, a + d)?;
                            ask(&t, &m, a + d, q).map_err(|e| {
                                let op = match op {
                                    0 | 1 => "a push".into(),
                                    2 => "load".into(),
                                    _ => format!("prove({})", op - 3),
                                };
                                format!("{op} with storage call {c} failing ({mode:?}), then {d} pushes: {e}")
                            })?;
                            acc.step(d + 2);
                        }
                        acc.beat();
                        if !hit {
                            break;
                        }
                        acc.state(&("order", a, d, op, mode as u8, c));
                    }
                }
            }
            Ok(())
        },
        move |i| format!("{} leaves, a failing operation, {} pushes, a question", max - i / (more + 1), i % (more + 1)),
    )]
}

pub fn c13_order(t: Tier) -> Vec<Space<'static>> {
    let (max, more) = t.pick((20u64, 12u64), (30, 20));
    let m = model(64);
    vec![Space::new(
        format!("a proof of up to {max} leaves with a node lost, the node put back, up to {more} pushes, then one question"),
        (max + 1) * (more + 1),
        move |i, acc| {
            let (a, d) = (max - i / (more + 1), i % (more + 1));
            for (k, h) in m.stored(a) {
                for p in 0..a {
                    for q in 0..questions(a + d) {
                        let st = Store::new();
                        let mut t = Tree::new(st.clone());
                        grow(&mut t, 0, a)?;
                        let old = st.lose(&k).ok_or_else(|| format!("node {k} ({}) is not stored", hx(&h)))?;
                        let r = guard(|| t.prove(p)).map_err(|e| format!("without node {k}, prove({p}) panicked: {e}"))?;
                        if r.is_ok() {
                            break; // the proof does not need the node
                        }
                        st.put(&k, old);
                        grow(&mut t, a, a + d)?;
                        ask(&t, &m, a + d, q)
                            .map_err(|e| format!("prove({p}) without node {k}, then the node put back and {d} pushes: {e}"))?;
                        acc.eval(1);
                        acc.step(d + 3);
                    }
                    acc.beat();
                }
                acc.state(&("healed", a, d, k));
            }
            Ok(())
        },
        move |i| format!("{} leaves, a node lost and put back, {} pushes, a question", max - i / (more + 1), i % (more + 1)),
    )]
}
