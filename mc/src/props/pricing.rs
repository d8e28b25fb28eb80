//! E05 prices of simple pools, E09 fee shares, E22 volumes: a grid of reserves, fees and amounts
//! against the reference model.
use super::*;
use crate::chain::*;
use crate::ensure;
use crate::exh::*;
use crate::explore::*;
use crate::model::*;
use crate::ops::*;
use crate::props::custody::*;
use crate::rates::*;
use crate::vm::*;
use crate::Ctx;
use num_bigint::BigInt;
use num_traits::{Signed, Zero};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub const HUGE: u128 = 20_000_000_000_000_000_000_000_000_000_000_000_000; // 2e37
/// (tokens, fee, reserves)
pub const GRID: &[(&str, &str, u32, u128, u128)] = &[
    (T1, T2, 30, 100_000 * E18 + 1, 300_000 * E18 + 2),
    (T1, T2, 1, 5, 7),
    (T2, T3, 0, 1_000_003, 999_983),
    (T1, T3, 9_999, 12_345_678_901, 98_765_432_109_876),
    (T3, T1, 25, 1, 1_000_000_000_000_000_000_000_000_000_000),
    (T2, T3, 200, HUGE / 2, HUGE / 7),
];

pub fn grid_setup(cx: &Ctx, exf: u32, rff: u32) -> Sb {
    let mut s = exchange(&cx.ex, exf, rff);
    for a in [OWNER, ALICE, BOB] {
        s.storage(a, NEAR / 10);
    }
    s.one(OWNER, "insert_referral", json!({"referral_id": REF, "fee_bps": 2500}));
    for t in [T1, T2, T3] {
        s.deposit(ALICE, t, HUGE * 2);
        s.deposit(BOB, t, HUGE);
    }
    for (i, (a, b, fee, x, y)) in GRID.iter().enumerate() {
        s.simple_pool(a, b, *fee);
        s.add_liq(ALICE, i as u64, &[*x, *y]);
        if i % 2 == 0 {
            s.must(REF, EX, "mft_register", json!({"token_id": format!(":{}", i), "account_id": REF}), NEAR / 10);
        }
    }
    s
}

fn grid_amounts(r: u128) -> Vec<u128> {
    let mut v = vec![1, 2, 3, 17, r / 1_000 + 1, r / 3, r.saturating_sub(1), r, r + 1, r.saturating_mul(20)];
    v.retain(|x| *x > 0);
    v.sort();
    v.dedup();
    v
}
fn swap_grid() -> Vec<Op> {
    (0..GRID.len()).flat_map(grid_ops).collect()
}
pub fn grid_ops(i: usize) -> Vec<Op> {
    let mut ops = vec![];
    {
        let (a, b, _, x, y) = &GRID[i];
        for (tin, tout, rin, rout) in [(*a, *b, *x, *y), (*b, *a, *y, *x)] {
            for n in grid_amounts(rin) {
                if n > HUGE {
                    continue;
                }
                ops.push(tx(BOB, EX, "swap", json!({"actions": [act(i as u64, tin, tout, Some(n), 0)], "referral_id": REF}), 1));
            }
            for n in grid_amounts(rout) {
                ops.push(tx(BOB, EX, "swap_by_output", json!({"actions": [act_out(i as u64, tin, tout, Some(n), None)]}), 1));
            }
        }
    }
    ops
}
fn chain_grid() -> Vec<Op> {
    let sw = |v: Vec<Value>, r: bool| {
        let mut a = json!({ "actions": v });
        if r {
            a["referral_id"] = json!(REF);
        }
        tx(BOB, EX, "swap", a, 1)
    };
    let so = |v: Vec<Value>| tx(BOB, EX, "swap_by_output", json!({ "actions": v, "referral_id": REF }), 1);
    vec![
        sw(vec![act(0, T1, T2, Some(77 * E18), 0), act(2, T2, T3, None, 0), act(3, T3, T1, None, 0)], true),
        sw(vec![act(0, T1, T2, Some(77 * E18), 0), act(0, T2, T1, None, 0)], false),
        sw(vec![act(1, T1, T2, Some(3), 0), act(0, T2, T1, Some(1_000), 0)], true),
        sw(vec![act(0, T1, T2, Some(5), 0), act(0, T2, T1, Some(E18), 0), act(0, T1, T2, None, 0)], false),
        // no amount to start with
        sw(vec![act(0, T1, T2, None, 0)], false),
        // the previous result is used even for another token
        sw(vec![act(2, T2, T3, Some(1_000), 0), act(0, T1, T2, None, 0)], false),
        sw(vec![act(0, T1, T1, Some(1_000), 0)], false),
        sw(vec![act(0, T1, T3, Some(1_000), 0)], false),
        sw(vec![act(77, T1, T2, Some(1_000), 0)], false),
        sw(vec![act(0, T1, T2, Some(0), 0)], false),
        so(vec![act_out(2, T2, T3, Some(1_234), None), act_out(0, T1, T2, None, None)]),
        so(vec![act_out(2, T2, T3, Some(1_234), None), act_out(0, T1, T2, None, None), act_out(3, T3, T1, None, None)]),
        so(vec![act_out(0, T1, T2, Some(1_234 * E18), None), act_out(0, T2, T1, Some(55), None)]),
        so(vec![act_out(2, T2, T3, Some(1_234), None), act_out(0, T2, T1, None, None)]),
        so(vec![act_out(2, T2, T3, None, None)]),
        so(vec![act_out(0, T1, T2, Some(0), None)]),
        tx(BOB, EX, "execute_actions", json!({"actions": [act(0, T1, T2, Some(9 * E18), 0), act_out(0, T1, T2, Some(100), None)]}), 1),
        tx(BOB, EX, "execute_actions", json!({"actions": [act(2, T2, T3, Some(100_000), 0), act(2, T3, T2, None, 0)], "referral_id": REF}), 0),
        tx(BOB, EX, "execute_actions", json!({"actions": [act_out(0, T1, T2, Some(100 * E18), None)], "referral_id": ALICE}), 0),
        tx(BOB, EX, "execute_actions_in_va", json!({"actions": [act(0, T1, T2, Some(E18), 0), act(2, T2, T3, Some(50_000), 0)], "use_tokens": {T1: (3 * E18).to_string()}, "referral_id": REF}), 0),
        tx(BOB, EX, "execute_actions_in_va", json!({"actions": [act(0, T1, T2, Some(4 * E18), 0)], "use_tokens": {T1: (3 * E18).to_string()}}), 0),
        tx(BOB, EX, "execute_actions_in_va", json!({"actions": [act_out(0, T1, T2, Some(E18), None)], "use_tokens": {T1: (3 * E18).to_string(), T3: "9"}}), 0),
        tx(BOB, EX, "execute_actions_in_va", json!({"actions": [act_out(0, T1, T2, Some(30 * E18), None)], "use_tokens": {T1: (3 * E18).to_string()}}), 0),
    ]
}

/// Is this receipt a user's list of actions?
pub fn is_swap(e: &Exec) -> bool {
    e.recv == EX && e.pred != EX && ["swap", "swap_by_output", "execute_actions", "execute_actions_in_va"].contains(&&e.method[..])
}

/// Result of the model for one call: balances and pools afterwards, or refused.
pub fn predict(env: &Env, pre: &World, e: &Exec, ids: &[u64]) -> (Model, BTreeMap<String, BigInt>, Option<BigInt>, bool) {
    let v = env.view(pre, EX);
    let mut m = Model::read(&v, ids, REF);
    let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
    let acts: Vec<Value> = a["actions"].as_array().cloned().unwrap_or_default();
    let inner: BTreeMap<String, BigInt> = deposits(&v, &e.pred).into_iter().map(|(t, n)| (t, big(n))).collect();
    let mut bal = inner.clone();
    let referral = a["referral_id"] == REF;
    let m0 = m.clone();
    let mut far = m.largest().bits() < 118;
    for x in &acts {
        for k in ["amount_in", "amount_out"] {
            if let Some(s) = x[k].as_str() {
                far &= s.parse::<BigInt>().map(|b| b.bits() < 118).unwrap_or(false);
            }
        }
    }
    let r = if e.method == "execute_actions_in_va" {
        let mut va: BTreeMap<String, BigInt> = BTreeMap::new();
        let mut ok = true;
        for (t, n) in a["use_tokens"].as_object().cloned().unwrap_or_default() {
            let n = bigv(&n);
            let b = bal.entry(t.clone()).or_default();
            *b -= &n;
            ok &= !b.is_negative();
            *va.entry(t).or_default() += n;
        }
        let r = if ok { m.run(&mut va, &acts, None, referral) } else { None };
        for (t, n) in va {
            *bal.entry(t).or_default() += n;
        }
        r
    } else {
        m.run(&mut bal, &acts, None, referral)
    };
    match r {
        Some(r) => (m, bal, Some(r), far),
        None => (m0, inner, None, far),
    }
}

pub enum Judge {
    Price,
    Fee,
    Volume,
}

pub fn judge(what: Judge, ids: Vec<u64>) -> impl Fn(&Env, &World, &World, &[Exec]) -> R {
    move |env, pre, post, log| {
        let e = match log.first() {
            Some(e) if is_swap(e) => e,
            _ => return Ok(()),
        };
        let (m, bal, r, far) = predict(env, pre, e, &ids);
        let (pv, v) = (env.view(post, EX), env.view(pre, EX));
        let m2 = Model::read(&pv, &ids, REF);
        if !far && !e.ok {
            // numbers near the limits of machine integers may be refused
            ensure!(Model::read(&v, &ids, REF).pools == m2.pools, "e05:refused", "a refused swap changed a pool: {}", e.args);
            return Ok(());
        }
        if let Judge::Price = what {
            ensure!(e.ok == r.is_some(), "e05:accept", "{}({}) was {} ({})", e.method, e.args, if e.ok { "accepted" } else { "refused" }, e.err);
            let got = deposits(&pv, &e.pred);
            for t in [T1, T2, T3] {
                let (g, w) = (big(got.get(t).cloned().unwrap_or(0)), bal.get(t).cloned().unwrap_or_default());
                ensure!(g == w, "e05:balance", "{}({}): {} now has {} {}, the price gives {}", e.method, e.args, e.pred, g, t, w);
                for o in [ALICE, OWNER] {
                    ensure!(deposit_v(&pv, o, t) == deposit_v(&v, o, t), "e05:others", "{}({}) changed the balance of {}", e.method, e.args, o);
                }
            }
            for id in &ids {
                let (g, w) = (&m2.pools[id].r, &m.pools[id].r);
                ensure!(g == w, "e05:reserves", "{}({}): pool {} has reserves {:?}, the price gives {:?}", e.method, e.args, id, g, w);
                // stated once more without the model: value never leaves a pool
                let p0 = Model::read(&v, &[*id], REF).pools[id].r.iter().product::<BigInt>();
                ensure!(g.iter().product::<BigInt>() >= p0, "e05:invariant", "{}({}): the product of the reserves of pool {} fell", e.method, e.args, id);
            }
            if let (Some(x), true) = (r, e.method != "execute_actions_in_va") {
                let ret: Value = e.ret.as_ref().and_then(|b| serde_json::from_slice(b).ok()).unwrap_or_default();
                let ret = if ret.is_object() { ret["Amount"].clone() } else { ret };
                ensure!(bigv(&ret) == x, "e05:result", "{}({}) returned {}, the price gives {}", e.method, e.args, ret, x);
            }
        } else if e.ok && r.is_some() {
            for id in &ids {
                let (g, w) = (&m2.pools[id], &m.pools[id]);
                if let Judge::Volume = what {
                    ensure!(g.vol == w.vol, "e22:volume", "{}({}): pool {} reports volumes {:?}, traded were {:?}", e.method, e.args, id, g.vol, w.vol);
                    let by = pv.get("get_pool_volumes_by_ids", json!({ "pool_ids": [id] }));
                    let li = pv.get("list_pool_volumes", json!({"from_index": id, "limit": 1}));
                    ensure!(by == li && by[0] == pv.get("get_pool_volumes", json!({ "pool_id": id })), "e22:views", "pool {}: the volume views disagree", id);
                } else {
                    let near = |a: &BigInt, b: &BigInt| (a - b).abs() <= BigInt::from(1);
                    ensure!(near(&g.supply, &w.supply), "e09:supply", "{}({}): pool {} has {} shares, with the admin part of the fee it should have {}", e.method, e.args, id, g.supply, w.supply);
                    ensure!(near(&g.ex, &w.ex), "e09:exchange", "{}({}): the exchange has {} shares of pool {}, its part of the fee gives {}", e.method, e.args, g.ex, id, w.ex);
                    let z = BigInt::zero();
                    ensure!(near(g.rf.as_ref().unwrap_or(&z), w.rf.as_ref().unwrap_or(&z)), "e09:referral", "{}({}): the referrer has {:?} shares of pool {}, the referral part of the fee gives {:?}", e.method, e.args, g.rf, id, w.rf);
                }
            }
        }
        Ok(())
    }
}

pub fn e05(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    let th = cx.thorough;
    for i in 0..GRID.len() {
        v.push(grid_pool(cx, price_of, i, 1600, 400, if th { 4 } else if i == 1 || i > 3 { 3 } else { 2 }));
    }
    v.push(mk(cx, "chains over the grid", move |cx| {
        let s = grid_setup(cx, 1600, 400);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = chain_grid();
        sc.depth = if th { 4 } else { 3 };
        sc.step = Box::new(judge(Judge::Price, (0..GRID.len() as u64).collect()));
        sc
    }));
    v.push(mk(cx, "all grid pools together", move |cx| {
        let s = grid_setup(cx, 0, 0);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = swap_grid();
        sc.depth = if th { 2 } else { 1 };
        sc.step = Box::new(judge(Judge::Price, (0..GRID.len() as u64).collect()));
        sc
    }));
    v
}

/// One scenario per grid pool: its own swaps, deeper.
fn grid_pool(cx: &Ctx, what: fn() -> Judge, i: usize, exf: u32, rff: u32, depth: usize) -> (String, Box<dyn Fn() -> Scenario>) {
    mk(cx, &format!("grid pool {}, fees {}/{}", i, exf, rff), move |cx| {
        let s = grid_setup(cx, exf, rff);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = grid_ops(i);
        sc.depth = depth;
        sc.step = Box::new(judge(what(), vec![i as u64]));
        sc
    })
}
fn price_of() -> Judge {
    Judge::Price
}
fn fee_of() -> Judge {
    Judge::Fee
}
fn vol_of() -> Judge {
    Judge::Volume
}

pub fn e09(cx: &Ctx) -> Mk {
    let th = cx.thorough;
    let mut v: Mk = vec![];
    for i in 0..GRID.len() {
        v.push(grid_pool(cx, fee_of, i, 1600, 400, if th { 3 } else { 2 }));
    }
    for (exf, rff) in [(0, 0), (8000, 0), (1, 1)] {
        v.push(grid_pool(cx, fee_of, 0, exf, rff, if th { 3 } else { 1 }));
        v.push(grid_pool(cx, fee_of, 1, exf, rff, if th { 3 } else { 1 }));
    }
    v.push(mk(cx, "chains over the grid", move |cx| {
        let s = grid_setup(cx, 1600, 400);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = chain_grid();
        sc.ops.push(tx(OWNER, EX, "modify_admin_fee", json!({"admin_fee_bps": 8000}), 1));
        sc.ops.push(tx(OWNER, EX, "modify_admin_fee", json!({"admin_fee_bps": 0}), 1));
        sc.ops.push(tx(OWNER, EX, "remove_referral", json!({"referral_id": REF}), 1));
        sc.depth = if th { 4 } else { 3 };
        sc.step = Box::new(judge(Judge::Fee, (0..GRID.len() as u64).collect()));
        sc
    }));
    use crate::props::curves::*;
    v.extend(curve_scenarios(cx, Part::Fee, &[0, 2, 3, 4, 5, 6], 1600, 400, true, if th { 3 } else { 2 }));
    v.extend(curve_scenarios(cx, Part::Fee, &[0, 2, 3], 2000, 0, false, if th { 2 } else { 1 }));
    v.extend(curve_scenarios(cx, Part::Fee, &[0, 2, 3], 0, 0, true, if th { 2 } else { 1 }));
    v
}

pub fn e22(cx: &Ctx) -> Mk {
    let th = cx.thorough;
    let mut v: Mk = vec![];
    for i in 0..GRID.len() {
        v.push(grid_pool(cx, vol_of, i, 1600, 400, if th { 3 } else { 2 }));
    }
    v.push(mk(cx, "chains over the grid", move |cx| {
        let s = grid_setup(cx, 1600, 400);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = chain_grid();
        sc.depth = if th { 4 } else { 3 };
        sc.step = Box::new(judge(Judge::Volume, (0..GRID.len() as u64).collect()));
        sc
    }));
    use crate::props::curves::*;
    v.extend(curve_scenarios(cx, Part::Volume, &[0, 2, 3, 4], 1600, 400, true, if th { 3 } else { 2 }));
    v
}
