//! C22: a hash ring maps every key to one of its nodes, consistently, under concurrent changes.

use crate::util::*;
use std::sync::Arc;

pub fn scenarios() -> Vec<Scenario> {
    vec![histories(), two_writers(), reader()]
}

type Ring = HashRing<u32>;
const NODES: [&str; 4] = ["n0", "n1", "n2", "n3"];

fn ring(seed: usize) -> Ring {
    // Every hasher hashes differently.
    for _ in 0..seed {
        let _ = std::hash::RandomState::new();
    }
    HashRing::new()
}

fn map(r: &Ring) -> Vec<Option<u32>> {
    (0..40u32).map(|k| r.find_node(k)).chain(NODES.iter().map(|n| r.find_node(*n))).collect()
}

/// What must hold of a mapping on its own.
fn check_map(m: &[Option<u32>], nodes: &BTreeMap<usize, u32>, what: &dyn std::fmt::Debug) {
    let values: BTreeSet<u32> = nodes.values().copied().collect();
    for v in m {
        check!(v.is_none() == nodes.is_empty() && v.is_none_or(|v| values.contains(&v)), "unknown-node", "{:?}: {:?}, nodes {:?}", what, m, nodes);
    }
    // The place of a node on the ring belongs to it.
    for (i, v) in nodes {
        check!(m[40 + i] == Some(*v), "wrong-node", "{:?}: node {} {:?}, expected {}", what, i, m[40 + i], v);
    }
}

/// Every history of changes.
fn histories() -> Scenario {
    let depth = if thorough() { 5 } else { 4 };
    seq("histories", 1000).run(move || {
        mc::settle();
        mc::explore();
        let r = ring(mc::choose(if thorough() { 3 } else { 2 }));
        let mut nodes: BTreeMap<usize, u32> = BTreeMap::new();
        let mut over: BTreeMap<u32, u32> = BTreeMap::new();
        let mut next = 0u32;
        let mut trail: Vec<String> = vec![];
        let mut base = map(&r);
        for _ in 0..depth {
            next += 10;
            match mc::choose(11) {
                k @ 0..=3 => {
                    let got = r.add_node(NODES[k], next);
                    trail.push(format!("add {} {}", k, next));
                    let want = nodes.insert(k, next);
                    check!(got == want, "add-result", "{:?}: {:?}", trail, got);
                    // Only keys of the new (or replaced) node move.
                    let now = pure(&r, &over);
                    for i in 0..now.len() {
                        let moved = base[i] != now[i];
                        check!(!moved || now[i] == Some(next), "keys-moved", "{:?}: key {} moved from {:?} to {:?}", trail, i, base[i], now[i]);
                        check!(want.is_none() || base[i] != want || moved, "not-replaced", "{:?}: key {}", trail, i);
                    }
                }
                k @ 4..=5 => {
                    let k = 2 * (k - 4);
                    let got = r.remove_node(NODES[k]);
                    trail.push(format!("remove {}", k));
                    let want = nodes.remove(&k);
                    check!(got == want, "remove-result", "{:?}: {:?}", trail, got);
                    let now = pure(&r, &over);
                    for i in 0..now.len() {
                        check!(base[i] == now[i] || base[i] == want, "keys-moved", "{:?}: key {} moved from {:?} to {:?}", trail, i, base[i], now[i]);
                    }
                }
                6 => {
                    // One key twice: the later value counts.
                    r.add_nodes([(NODES[1], next), (NODES[3], next + 1), (NODES[1], next + 2)]);
                    trail.push(format!("add_nodes 1:{} 3:{}", next + 2, next + 1));
                    nodes.insert(1, next + 2);
                    nodes.insert(3, next + 1);
                }
                7 => {
                    // Nothing, or one key twice: the later value counts.
                    let set = [(2, next), (0, next + 1), (2, next + 2)];
                    let set = &set[..3 * mc::choose(2)];
                    r.set_nodes(set.iter().map(|(k, v)| (NODES[*k], *v)));
                    trail.push(format!("set_nodes {:?}", set));
                    nodes = set.iter().copied().collect();
                }
                8 => {
                    let k = mc::choose(2) as u32 * 7;
                    let got = if mc::choose(2) == 0 {
                        trail.push(format!("override {} {}", k, next));
                        let g = r.add_override(k, next);
                        (g, over.insert(k, next))
                    } else {
                        trail.push(format!("remove override {}", k));
                        (r.remove_override(k), over.remove(&k))
                    };
                    check!(got.0 == got.1, "override-result", "{:?}: {:?}", trail, got);
                }
                9 => {
                    r.set_overrides([(7u32, next), (3, next + 1)]);
                    r.add_overrides([(3u32, next + 2)]);
                    trail.push("set_overrides".into());
                    over = [(7, next), (3, next + 2)].into_iter().collect();
                }
                _ => {
                    r.clear();
                    trail.push("clear".into());
                    nodes.clear();
                    over.clear();
                }
            }
            let now = map(&r);
            for (k, v) in &over {
                check!(now[*k as usize] == Some(*v), "override", "{:?}: key {} {:?}, expected {}", trail, k, now[*k as usize], v);
            }
            base = pure(&r, &over);
            check_map(&base, &nodes, &trail);
            for (i, v) in now.iter().enumerate() {
                check!(*v == base[i] || over.contains_key(&(i as u32)), "override-other", "{:?}: key {}", trail, i);
            }
        }
        // The order in which nodes were added does not matter.
        let order: Vec<(&str, u32)> = nodes.iter().map(|(k, v)| (NODES[*k], *v)).collect();
        r.set_nodes(order.iter().copied());
        check!(pure(&r, &over) == base, "order-matters", "{:?}", trail);
        r.set_nodes(order.iter().rev().copied());
        check!(pure(&r, &over) == base, "order-matters", "{:?}", trail);
        no_stray_panics(&[]);
        mc::outcome(trail);
    })
}

/// The mapping without overrides.
fn pure(r: &Ring, over: &BTreeMap<u32, u32>) -> Vec<Option<u32>> {
    for k in over.keys() {
        r.remove_override(*k);
    }
    let m = map(r);
    for (k, v) in over {
        r.add_override(*k, *v);
    }
    m
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum W {
    Add(usize, u32),
    Remove(usize),
    Adds,
    Set,
    Clear,
}

fn act(r: &Ring, w: W) -> Option<u32> {
    match w {
        W::Add(n, v) => r.add_node(NODES[n], v),
        W::Remove(n) => r.remove_node(NODES[n]),
        W::Adds => {
            r.add_nodes([(NODES[1], 71), (NODES[2], 72)]);
            None
        }
        W::Set => {
            r.set_nodes([(NODES[2], 82), (NODES[3], 83)]);
            None
        }
        W::Clear => {
            r.clear();
            None
        }
    }
}

fn model(m: &mut BTreeMap<usize, u32>, w: W) -> Option<u32> {
    match w {
        W::Add(n, v) => m.insert(n, v),
        W::Remove(n) => m.remove(&n),
        W::Adds => {
            m.insert(1, 71);
            m.insert(2, 72);
            None
        }
        W::Set => {
            *m = [(2, 82), (3, 83)].into_iter().collect();
            None
        }
        W::Clear => {
            m.clear();
            None
        }
    }
}

/// Two writers: the result is that of one order.
fn two_writers() -> Scenario {
    sc("two-writers", (3, 5), 30).run(|| {
        mc::settle();
        mc::explore();
        let r = Arc::new(ring(0));
        r.add_node(NODES[0], 100);
        r.add_node(NODES[1], 101);
        let pick = |i: usize, v: u32| [W::Add(0, v), W::Add(2, v), W::Remove(0), W::Adds, W::Set, W::Clear, W::Remove(1)][i];
        let scripts = [vec![pick(mc::choose(7), 1), W::Add(3, 3)], vec![pick(mc::choose(7), 2)]];
        let res: Shared<[Vec<Option<u32>>; 2]> = Shared::new([vec![], vec![]]);
        for c in 0..2 {
            let (r, res, script) = (r.clone(), res.clone(), scripts[c].clone());
            task("writer", async move {
                for w in script {
                    let x = act(&r, w);
                    res.with(|v| v[c].push(x));
                }
            });
        }
        mc::settle();
        let got = res.get();
        let m = mc::quiet(|| map(&r));
        let mut ok = false;
        for order in [[0, 0, 1], [0, 1, 0], [1, 0, 0]] {
            let mut s: BTreeMap<usize, u32> = [(0, 100), (1, 101)].into_iter().collect();
            let mut want = [vec![], vec![]];
            for c in order {
                let x = model(&mut s, scripts[c][want[c].len()]);
                want[c].push(x);
            }
            let fits = s.is_empty() == m[0].is_none()
                && m.iter().all(|v| v.is_none() || s.values().any(|x| Some(*x) == *v))
                && s.iter().all(|(i, v)| m[40 + i] == Some(*v));
            ok |= fits && want == got;
        }
        check!(ok, "lost-update", "{:?} gave {:?} and {:?}", scripts, got, m);
        no_stray_panics(&[]);
        mc::outcome((scripts, got));
    })
}

/// A reader always finds a node that was there before or after a change.
fn reader() -> Scenario {
    sc("reader", (3, 5), 12).run(|| {
        mc::settle();
        mc::explore();
        let r = Arc::new(ring(0));
        r.add_node(NODES[0], 100);
        r.add_node(NODES[1], 101);
        let w = [W::Add(0, 1), W::Add(2, 2), W::Remove(0), W::Adds, W::Set, W::Clear][mc::choose(6)];
        let key = mc::choose(6) as u32;
        let before = r.find_node(key);
        let seen: Shared<Vec<Option<u32>>> = Shared::new(vec![]);
        {
            let r = r.clone();
            task("writer", async move {
                act(&r, w);
            });
        }
        {
            let (r, seen) = (r.clone(), seen.clone());
            task("reader", async move {
                for _ in 0..2 {
                    let v = r.find_node(key);
                    seen.push(v);
                }
            });
        }
        mc::settle();
        let after = r.find_node(key);
        let seen = seen.get();
        for v in &seen {
            check!(*v == before || *v == after, "torn-read", "{:?}: key {} read as {:?}, before {:?}, after {:?}", w, key, v, before, after);
        }
        check!(seen[1] == after || seen[0] == before, "went-back", "{:?}: read {:?}", w, seen);
        no_stray_panics(&[]);
        mc::outcome((w, key, before != after && seen[0] == before));
    })
}
