//! E06 liquidity of simple pools, E08 bounds on trades, E21 predictions.
use super::*;
use crate::chain::*;
use crate::ensure;
use crate::exh::*;
use crate::explore::*;
use crate::model::*;
use crate::ops::*;
use crate::props::curves::*;
use crate::props::custody::*;
use crate::props::pricing::*;
use crate::rates::*;
use crate::vm::*;
use crate::Ctx;
use num_bigint::BigInt;
use num_traits::{Signed, Zero};
use serde_json::{json, Value};

fn simple_liq_ops(i: usize) -> Vec<Op> {
    let id = i as u64;
    let (a, b, _, x, y) = GRID[i];
    let mut ops = vec![];
    let mut vs: Vec<[u128; 2]> = vec![[1, 1], [2, 2], [x, y], [x / 10 + 1, y / 10 + 1], [x / 10 + 1, y], [x, y / 1000 + 1], [HUGE / 4, HUGE / 4], [3, y / 3 + 1], [0, y]];
    vs.dedup();
    for v in vs {
        for who in [BOB, CAROL] {
            ops.push(tx(who, EX, "add_liquidity", json!({"pool_id": id, "amounts": strs(&v)}), NEAR / 50));
        }
    }
    ops.push(tx(BOB, EX, "add_liquidity", json!({"pool_id": id, "amounts": strs(&[x / 7 + 1])}), NEAR / 50));
    for who in [ALICE, BOB] {
        for part in [0u128, 1, 2, 3, 5, 7] {
            let w = who;
            ops.push(op(format!("{} removes {}", short(who), ["one share", "all shares", "half", "a third plus one", "more than there is", "all but one share", "", "a seventh"][part as usize]), move |c| {
                let sh = shares(&c.view(EX), id, w);
                let n = match part {
                    0 => 1,
                    1 => sh,
                    4 => sh + 1,
                    5 => sh.saturating_sub(1),
                    _ => sh / part + 1,
                };
                c.call(w, EX, "remove_liquidity", json!({"pool_id": id, "shares": n.to_string(), "min_amounts": ["0", "0"]}), 1);
                Ok(())
            }));
        }
    }
    ops.push(tx(BOB, EX, "swap", json!({"actions": [act(id, a, b, Some(x / 3 + 2), 0)]}), 1));
    ops.push(tx(BOB, EX, "swap", json!({"actions": [act(id, b, a, Some(y / 2 + 2), 0)], "referral_id": REF}), 1));
    ops
}

/// Adding and removing against exact proportions.
fn simple_liq_judge(id: u64) -> impl Fn(&Env, &World, &World, &[Exec]) -> R {
    move |env, pre, post, log| {
        let e = match log.first() {
            Some(e) if e.recv == EX && e.pred != EX => e,
            _ => return Ok(()),
        };
        let (v, pv) = (env.view(pre, EX), env.view(post, EX));
        let (p, q) = (pool(&v, id), pool(&pv, id));
        if !e.ok {
            ensure!(p == q, "e06:refused", "the refused {}({}) changed the pool", e.method, e.args);
        }
        let (s0, s1) = (big(p.supply), big(q.supply));
        let prod = |x: &[u128]| x.iter().map(|a| big(*a)).product::<BigInt>();
        if e.method.ends_with("_liquidity") && s0.is_positive() && s1.is_positive() {
            ensure!(prod(&q.amounts) * &s0 * &s0 >= prod(&p.amounts) * &s1 * &s1, "e06:diluted", "{}({}): the reserves per share fell from {:?}/{} to {:?}/{}", e.method, e.args, p.amounts, s0, q.amounts, s1);
        }
        for who in [ALICE, BOB, CAROL] {
            if who != e.pred {
                ensure!(shares(&v, id, who) == shares(&pv, id, who), "e06:others", "{}({}) changed the shares of {}", e.method, e.args, who);
                ensure!(deposits(&v, who) == deposits(&pv, who), "e06:others", "{}({}) changed the balances of {}", e.method, e.args, who);
            }
        }
        let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
        let who = &e.pred[..];
        let dsh = big(shares(&pv, id, who)) - shares(&v, id, who);
        let bal = |v: &Viewer, t: &str| big(deposit_v(v, who, t));
        let d: Vec<BigInt> = p.tokens.iter().map(|t| bal(&pv, t) - bal(&v, t)).collect();
        match &e.method[..] {
            "add_liquidity" => {
                let am = us(&a["amounts"]);
                let want: Option<(Vec<BigInt>, BigInt)> = if am.len() != 2 || am.contains(&0) {
                    None
                } else if s0.is_zero() {
                    Some((am.iter().map(|x| big(*x)).collect(), big(E24)))
                } else if p.amounts.contains(&0) {
                    return Ok(());
                } else {
                    let sh = (0..2).map(|i| (big(am[i]) - 1) * &s0 / p.amounts[i]).min().unwrap();
                    Some(((0..2).map(|i| big(p.amounts[i]) * &sh / &s0 + 1).collect(), sh))
                };
                let far = am.iter().chain(p.amounts.iter()).all(|x| *x < 1 << 118) && want.as_ref().map(|w| w.1.bits() < 120 && s0.bits() < 120).unwrap_or(true);
                match want {
                    Some((take, sh)) if sh.is_positive() && (0..2).all(|i| bal(&v, &p.tokens[i]) >= take[i]) => {
                        if !e.ok {
                            ensure!(!far, "e06:add-live", "{}({}) was refused: {}", e.method, e.args, e.err);
                            return Ok(());
                        }
                        ensure!(dsh == sh && s1 == &s0 + &sh, "e06:shares", "{}({}) minted {} shares (supply {} to {}), proportional are {}", e.method, e.args, dsh, s0, s1, sh);
                        for i in 0..2 {
                            ensure!(d[i] == -&take[i] && big(q.amounts[i]) == big(p.amounts[i]) + &take[i], "e06:taken", "{}({}) took {} of {}, proportional are {}", e.method, e.args, -&d[i], p.tokens[i], take[i]);
                            ensure!(take[i] <= big(am[i]), "e06:more", "{}({}) took more than offered", e.method, e.args);
                        }
                    }
                    _ => ensure!(!e.ok, "e06:add-accept", "{}({}) was accepted", e.method, e.args),
                }
            }
            "remove_liquidity" => {
                let x = bigv(&a["shares"]);
                if x > big(shares(&v, id, who)) || s0.is_zero() {
                    ensure!(!e.ok, "e06:out-accept", "{}({}) was accepted", e.method, e.args);
                } else if x.is_positive() {
                    ensure!(e.ok, "e06:out-live", "{}({}) was refused: {}", e.method, e.args, e.err);
                    ensure!(dsh == -&x && s1 == &s0 - &x, "e06:out-shares", "{}({}): shares {}, supply {} to {}", e.method, e.args, dsh, s0, s1);
                    for i in 0..2 {
                        let g = big(p.amounts[i]) * &x / &s0;
                        ensure!(d[i] == g && big(q.amounts[i]) == big(p.amounts[i]) - &g, "e06:out", "{}({}) paid {} of {}, the part is {}", e.method, e.args, d[i], p.tokens[i], g);
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
}

pub fn e06(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    let th = cx.thorough;
    for i in 0..GRID.len() {
        let name = format!("grid pool {}", i);
        v.push(mk(cx, &name, move |cx| {
            let mut s = grid_setup(cx, 1600, 400);
            s.storage(CAROL, NEAR / 10);
            for t in [T1, T2, T3] {
                s.deposit(CAROL, t, HUGE / 8);
            }
            let mut sc = Scenario::new("", s.env, s.w);
            sc.ops = simple_liq_ops(i);
            sc.depth = if th { 5 } else { 4 };
            sc.step = Box::new(simple_liq_judge(i as u64));
            sc
        }));
    }
    v
}

// ---------------------------------------------------------------- E08

/// A call with a bound on what the user gives or gets.
struct Bounded {
    name: String,
    who: &'static str,
    /// (receiver, method, arguments, deposit) for a bound.
    call: Box<dyn Fn(u128) -> (&'static str, &'static str, Value, u128) + Send + Sync>,
    /// What is bounded: the user's gain of something (None: its cost).
    measure: Box<dyn Fn(&Env, &World, &World, &Outcome) -> Option<u128> + Send + Sync>,
    lower: bool,
    lax: u128,
}
impl Bounded {
    fn op(self) -> Op {
        let name = format!("{} at exactly the bound", self.name);
        op(name, move |x| {
            let run = |x: &mut X, b: u128| {
                let (r, m, a, d) = (self.call)(b);
                x.call(self.who, r, m, a, d)
            };
            let start = x.w.clone();
            let o = run(x, self.lax);
            let q = match (o.ok, (self.measure)(x.env, &start, &x.w, &o)) {
                (true, Some(q)) => q,
                _ => return x.skip(),
            };
            let lax = x.w.clone();
            if self.lower || q > 0 {
                x.w = start.clone();
                let b = if self.lower { q + 1 } else { q - 1 };
                run(x, b);
                let same = x.w.kv[EX].digest() == start.kv[EX].digest() && x.w.tok == start.tok;
                ensure!(same, "e08:worse", "{}: the bound {} allows nothing, the outcome is {}, and it was done anyway", self.name, b, q);
            }
            x.w = start.clone();
            let o = run(x, q);
            ensure!(o.ok && (self.measure)(x.env, &start, &x.w, &o) == Some(q), "e08:refused", "{}: with the bound {} exactly met the call gave {:?} {}", self.name, q, (self.measure)(x.env, &start, &x.w, &o), o.err);
            ensure!(x.w.kv[EX].digest() == lax.kv[EX].digest() && x.w.tok == lax.tok, "e08:depends", "{}: the outcome depends on the bound", self.name);
            x.class = "+".into();
            Ok(())
        })
    }
}
fn gain(who: &'static str, t: &'static str) -> Box<dyn Fn(&Env, &World, &World, &Outcome) -> Option<u128> + Send + Sync> {
    Box::new(move |env, a, b, _| dep(env, b, who, t).checked_sub(dep(env, a, who, t)))
}
fn cost(who: &'static str, t: &'static str) -> Box<dyn Fn(&Env, &World, &World, &Outcome) -> Option<u128> + Send + Sync> {
    Box::new(move |env, a, b, _| dep(env, a, who, t).checked_sub(dep(env, b, who, t)))
}
fn got_wallet(who: &'static str, t: &'static str) -> Box<dyn Fn(&Env, &World, &World, &Outcome) -> Option<u128> + Send + Sync> {
    // an instant swap that is refused gives everything back
    Box::new(move |_, a, b, _| match b.bal(t, who).checked_sub(a.bal(t, who)) {
        Some(0) | None => None,
        x => x,
    })
}
fn share_gain(who: &'static str, id: u64) -> Box<dyn Fn(&Env, &World, &World, &Outcome) -> Option<u128> + Send + Sync> {
    Box::new(move |env, a, b, _| match shares(&env.view(b, EX), id, who).checked_sub(shares(&env.view(a, EX), id, who)) {
        Some(0) | None => None,
        x => x,
    })
}
fn share_cost(who: &'static str, id: u64) -> Box<dyn Fn(&Env, &World, &World, &Outcome) -> Option<u128> + Send + Sync> {
    Box::new(move |env, a, b, _| shares(&env.view(a, EX), id, who).checked_sub(shares(&env.view(b, EX), id, who)))
}

fn bounded() -> Vec<Bounded> {
    let mut v: Vec<Bounded> = vec![];
    let mut add = |name: &str, who, lower: bool, measure, call: Box<dyn Fn(u128) -> (&'static str, &'static str, Value, u128) + Send + Sync>| {
        v.push(Bounded { name: name.into(), who, call, measure, lower, lax: if lower { 0 } else { u128::MAX } })
    };
    let legs: Vec<(u64, &'static str, &'static str, u128)> = vec![
        (0, T1, T2, 321 * E18),
        (0, T2, T1, 1_000_003),
        (1, WNEAR, ST, 777 * E24 + 1),
        (1, ST, LI, 5),
        (2, T1, USD, 123 * E18 + 7),
        (2, USD, T1, 1_000_001),
        (3, T2, USD, E18 / 3),
        (3, USD, T3, 55_555_555),
        (4, D24, T3, 55 * E24 + 123_457),
        (4, T3, D24, 77 * E18 + 1),
    ];
    for (id, a, b, n) in legs {
        add(&format!("bob swaps {} in pool {}", short(a), id), BOB, true, gain(BOB, b), Box::new(move |m| (EX, "swap", json!({"actions": [act(id, a, b, Some(n), m)], "skip_degen_price_sync": true}), 1)));
        add(&format!("carol swaps {} at once in pool {}", short(a), id), CAROL, true, got_wallet(CAROL, b), Box::new(move |m| {
            (a, "ft_transfer_call", json!({"receiver_id": EX, "amount": n.to_string(), "msg": json!({"actions": [act(id, a, b, None, m)], "skip_unwrap_near": true, "skip_degen_price_sync": true}).to_string()}), 1)
        }));
    }
    add("second leg of a chain", BOB, true, gain(BOB, T3), Box::new(|m| (EX, "swap", json!({"actions": [act(0, T1, T2, Some(99 * E18), 0), act(3, T2, T3, None, m)], "referral_id": REF}), 1)));
    add("last leg of three through the virtual account", BOB, true, gain(BOB, USD), Box::new(|m| {
        (EX, "execute_actions_in_va", json!({"use_tokens": {T1: (99 * E18).to_string()}, "actions": [act(0, T1, T2, Some(99 * E18), 0), act(3, T2, T3, None, 0), act(3, T3, USD, None, m)]}), 0)
    }));
    add("one of several actions", BOB, true, gain(BOB, T3), Box::new(|m| (EX, "execute_actions", json!({"actions": [act(3, T2, T3, Some(7 * E18), m), act(0, T1, T2, Some(99 * E18), 0)]}), 0)));
    add("input for an output", BOB, false, cost(BOB, T1), Box::new(|m| (EX, "swap_by_output", json!({"actions": [act_out(0, T1, T2, Some(345 * E18 + 1), Some(m))]}), 1)));
    add("input for an output, other way", BOB, false, cost(BOB, T2), Box::new(|m| (EX, "swap_by_output", json!({"actions": [act_out(0, T2, T1, Some(5), Some(m))], "referral_id": REF}), 1)));
    add("input for an output, at once", CAROL, false, Box::new(|_, a, b, _| a.bal(T1, CAROL).checked_sub(b.bal(T1, CAROL)).filter(|x| *x > 0)), Box::new(|m| {
        (T1, "ft_transfer_call", json!({"receiver_id": EX, "amount": (900 * E18).to_string(), "msg": json!({"actions": [act_out(0, T1, T2, Some(345 * E18 + 1), Some(m))], "skip_unwrap_near": true}).to_string()}), 1)
    }));
    for (i, t) in [(0usize, T1), (1, T2)] {
        add(&format!("liquidity, amount {}", i), BOB, true, cost(BOB, t), Box::new(move |m| {
            let mut mins = vec![0, 0];
            mins[i] = m;
            (EX, "add_liquidity", json!({"pool_id": 0, "amounts": strs(&[50 * E18 + 7, 131 * E18]), "min_amounts": strs(&mins)}), NEAR / 50)
        }));
        add(&format!("zap into liquidity, amount {}", i), BOB, true, Box::new(move |env, a, b, o| {
            if !o.ok || a.kv[EX].digest() == b.kv[EX].digest() {
                return None;
            }
            // what the swap of the zap moved the other way is added back
            let (a, b) = (env.view(a, EX), env.view(b, EX));
            let had = |v: &Viewer| big(u(&v.get("get_pool", json!({"pool_id": 0}))["amounts"][i]));
            let swapped = if i == 0 { -big(40 * E18) } else { big(u(&a.get("get_return", json!({"pool_id": 0, "token_in": T1, "token_out": T2, "amount_in": (40 * E18).to_string()})))) };
            (had(&b) - had(&a) + swapped).to_string().parse().ok()
        }), Box::new(move |m| {
            let mut mins = vec![0, 0];
            mins[i] = m;
            let acts = vec![act(0, T1, T2, Some(40 * E18), 0)];
            (T1, "ft_transfer_call", json!({"receiver_id": EX, "amount": (90 * E18).to_string(), "msg": json!({"hot_zap_actions": acts, "add_liquidity_infos": [{"pool_id": 0, "amounts": strs(&[20 * E18, 40 * E18]), "min_amounts": strs(&mins)}]}).to_string()}), 1)
        }));
    }
    let _ = &mut add;
    for (id, am) in [(1u64, vec![0, 71 * E24 + 1, 0]), (2, vec![3 * E18 + 1, 0]), (3, vec![0, 777_777_777, E18 + 1]), (4, vec![7 * E24 + 999_999, 0])] {
        let am2 = am.clone();
        add(&format!("shares of pool {} for tokens", id), BOB, true, share_gain(BOB, id), Box::new(move |m| (EX, "add_stable_liquidity", json!({"pool_id": id, "amounts": strs(&am2), "min_shares": m.to_string()}), NEAR / 50)));
        add(&format!("shares of pool {} burned for tokens", id), ALICE, false, share_cost(ALICE, id), Box::new(move |m| (EX, "remove_liquidity_by_tokens", json!({"pool_id": id, "amounts": strs(&am), "max_burn_shares": m.to_string()}), 1)));
    }
    add("zap into shares of pool 3", BOB, true, share_gain(BOB, 3), Box::new(|m| {
        (T2, "ft_transfer_call", json!({"receiver_id": EX, "amount": (90 * E18).to_string(), "msg": json!({"hot_zap_actions": [act(3, T2, USD, Some(40 * E18), 0)], "add_liquidity_infos": [{"pool_id": 3, "amounts": strs(&[20 * E18, 9 * E6, 0]), "min_shares": m.to_string()}]}).to_string()}), 1)
    }));
    add("swap inside a zap", BOB, true, Box::new(|env, a, b, _| dep(env, b, BOB, USD).checked_sub(dep(env, a, BOB, USD)).map(|x| x + 9 * E6).filter(|x| *x > 9 * E6)), Box::new(|m| {
        (T2, "ft_transfer_call", json!({"receiver_id": EX, "amount": (90 * E18).to_string(), "msg": json!({"hot_zap_actions": [act(3, T2, USD, Some(40 * E18), m)], "add_liquidity_infos": [{"pool_id": 3, "amounts": strs(&[20 * E18, 9 * E6, 0]), "min_shares": "0"}]}).to_string()}), 1)
    }));
    let outs: Vec<(u64, usize, &'static str, usize, u128)> = vec![
        (0, 0, T1, 2, E24 / 50 + 1),
        (0, 1, T2, 2, E24 / 50 + 1),
        (1, 2, LI, 3, 333 * E24 + 1),
        (2, 1, USD, 2, 33 * E24 + 1),
        (3, 0, T2, 3, 33 * E18 + 1),
        (4, 0, D24, 2, 3 * E18 + 1),
        (4, 1, T3, 2, 3 * E18 + 1),
    ];
    for (id, i, t, n, sh) in outs {
        add(&format!("{} for shares of pool {}", short(t), id), ALICE, true, gain(ALICE, t), Box::new(move |m| {
            let mut mins = vec![0; n];
            mins[i] = m;
            (EX, "remove_liquidity", json!({"pool_id": id, "shares": sh.to_string(), "min_amounts": strs(&mins)}), 1)
        }));
    }
    v
}

pub fn e08(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    let th = cx.thorough;
    v.push(mk(cx, "every kind of bound", move |cx| {
        let mut s = family(cx);
        for t in [T1, T2] {
            s.mint(t, BOB, 900_000 * E18);
        }
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = bounded().into_iter().map(|b| b.op()).collect();
        sc.depth = if th { 4 } else { 3 };
        sc
    }));
    v
}

// ---------------------------------------------------------------- E21

/// Predictions of the views before a call against what the call did.
/// A zap that is refused is promised nothing.
fn refused_judge(env: &Env, pre: &World, log: &[Exec]) -> R {
    let Some(e) = log.iter().find(|e| e.recv == EX && e.method == "ft_on_transfer" && !e.ok) else { return Ok(()) };
    let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
    let m: Value = serde_json::from_str(a["msg"].as_str().unwrap_or("")).unwrap_or_default();
    for acc in [a["sender_id"].clone(), Value::Null] {
        let q = json!({"referral_id": m["referral_id"], "account_id": acc, "token_in": e.pred, "amount_in": a["amount"], "hot_zap_actions": m["hot_zap_actions"], "add_liquidity_infos": m["add_liquidity_infos"]});
        if let Ok(r) = env.view(pre, EX).try_get("predict_hot_zap", q.clone()) {
            ensure!(r.is_null(), "e21:predict_hot_zap:refused", "predict_hot_zap({}) promises {}, the zap is refused ({})", q, r, e.err);
        }
    }
    Ok(())
}
fn predict_judge() -> impl Fn(&Env, &World, &World, &[Exec]) -> R {
    judge_predictions(true)
}
fn judge_predictions(anybody: bool) -> impl Fn(&Env, &World, &World, &[Exec]) -> R {
    move |env, pre, post, log| {
        let e = match log.iter().find(|e| e.recv == EX && e.pred != EX) {
            Some(e) if e.ok => e,
            _ => return Ok(()),
        };
        let (v, pv) = (env.view(pre, EX), env.view(post, EX));
        let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
        let who = &e.pred[..];
        let view = |m: &str, x: Value| -> Result<Value, Fail> {
            v.try_get(m, x.clone()).map_err(|err| Fail { key: format!("e21:{}", m), msg: format!("{}({}) fails ({}), but {}({}) succeeded", m, x, err.split('\n').next().unwrap_or(""), e.method, e.args) })
        };
        let gain = |t: &str| big(deposit_v(&pv, who, t)) - deposit_v(&v, who, t);
        let acts: Vec<Value> = a["actions"].as_array().cloned().unwrap_or_default();
        if is_swap(e) {
            if acts.len() == 1 {
                let x = &acts[0];
                let (tin, tout) = (x["token_in"].as_str().unwrap(), x["token_out"].as_str().unwrap());
                let kind = pool(&v, x["pool_id"].as_u64().unwrap()).kind;
                if !x["min_amount_out"].is_null() {
                    let q = json!({"pool_id": x["pool_id"], "token_in": tin, "token_out": tout, "amount_in": x["amount_in"]});
                    let mut ms = vec!["get_return"];
                    if kind == "RATED_SWAP" {
                        ms.push("get_rated_return");
                    }
                    if kind == "DEGEN_SWAP" {
                        ms.push("get_degen_return");
                    }
                    for m in ms {
                        let r = view(m, q.clone())?;
                        ensure!(bigv(&r) == gain(tout), format!("e21:{}", m), "{}({}) said {}, {}({}) paid {}", m, q, r, e.method, e.args, gain(tout));
                    }
                } else {
                    let q = json!({"pool_id": x["pool_id"], "token_in": tin, "token_out": tout, "amount_out": x["amount_out"]});
                    let r = view("get_return_by_output", q.clone())?;
                    ensure!(bigv(&r) == -gain(tin), "e21:get_return_by_output", "get_return_by_output({}) said {}, the swap cost {}", q, r, -gain(tin));
                }
            }
            // all balances of the user
            let have: serde_json::Map<String, Value> = if e.method == "execute_actions_in_va" {
                a["use_tokens"].as_object().cloned().unwrap_or_default()
            } else {
                deposits(&v, who).into_iter().map(|(t, n)| (t, json!(n.to_string()))).collect()
            };
            let q = json!({"token_deposit": have, "actions": acts});
            let r = view("predict_swap_actions", q.clone())?;
            for t in FTOKS {
                let w = if have.contains_key(*t) { bigv(&have[*t]) } else { BigInt::zero() };
                let p = if r[*t].is_null() { BigInt::zero() } else { bigv(&r[*t]) };
                ensure!(&p - &w == gain(t), "e21:predict_swap_actions", "predict_swap_actions({}) changes {} by {}, {}({}) changed it by {}", q, t, &p - &w, e.method, e.args, gain(t));
            }
            let b = view("batch_predict_swap_actions", json!({"batch_token_deposit": [have, have], "batch_actions": [acts, acts]}))?;
            ensure!(b == json!([r, r]), "e21:batch_predict_swap_actions", "batch_predict_swap_actions differs from predict_swap_actions for {}", q);
        }
        let id = a["pool_id"].clone();
        let dsh = |id: u64| big(shares(&pv, id, who)) - shares(&v, id, who);
        match &e.method[..] {
            "add_liquidity" => {
                let q = json!({"pool_id": id, "amounts": a["amounts"]});
                let r = view("predict_add_simple_liquidity", q.clone())?;
                let idn = id.as_u64().unwrap();
                ensure!(bigv(&r["mint_shares"]) == dsh(idn), "e21:predict_add_simple_liquidity", "predict_add_simple_liquidity({}) said {}, {} shares were minted", q, r, dsh(idn));
                for (t, n) in pool(&v, idn).tokens.iter().zip(us(&r["need_amounts"])) {
                    ensure!(big(n) == -gain(t), "e21:predict_add_simple_liquidity", "predict_add_simple_liquidity({}) said {}, {} of {} were taken", q, r, -gain(t), t);
                }
            }
            "add_stable_liquidity" => {
                let idn = id.as_u64().unwrap();
                let q = json!({"pool_id": id, "amounts": a["amounts"]});
                let mut ms = vec!["predict_add_stable_liquidity"];
                match &pool(&v, idn).kind[..] {
                    "RATED_SWAP" => ms.push("predict_add_rated_liquidity"),
                    "DEGEN_SWAP" => ms.push("predict_add_degen_liquidity"),
                    _ => {}
                }
                for m in ms {
                    let r = view(m, q.clone())?;
                    ensure!(bigv(&r) == dsh(idn), format!("e21:{}", m), "{}({}) said {}, {} shares were minted", m, q, r, dsh(idn));
                }
            }
            "remove_liquidity" => {
                let idn = id.as_u64().unwrap();
                let q = json!({"pool_id": id, "shares": a["shares"]});
                let r = us(&view("predict_remove_liquidity", q.clone())?);
                for (t, n) in pool(&v, idn).tokens.iter().zip(&r) {
                    ensure!(big(*n) == gain(t), "e21:predict_remove_liquidity", "predict_remove_liquidity({}) said {:?}, {} of {} were paid", q, r, gain(t), t);
                }
            }
            "remove_liquidity_by_tokens" => {
                let idn = id.as_u64().unwrap();
                let q = json!({"pool_id": id, "amounts": a["amounts"]});
                let mut ms = vec!["predict_remove_liquidity_by_tokens"];
                match &pool(&v, idn).kind[..] {
                    "RATED_SWAP" => ms.push("predict_remove_rated_liquidity_by_tokens"),
                    "DEGEN_SWAP" => ms.push("predict_remove_degen_liquidity_by_tokens"),
                    _ => {}
                }
                for m in ms {
                    let r = view(m, q.clone())?;
                    ensure!(bigv(&r) == -dsh(idn), format!("e21:{}", m), "{}({}) said {}, {} shares were burned", m, q, r, -dsh(idn));
                }
            }
            "ft_on_transfer" => {
                let m: Value = serde_json::from_str(a["msg"].as_str().unwrap_or("")).unwrap_or_default();
                if m["hot_zap_actions"].is_array() {
                    let who = a["sender_id"].as_str().unwrap();
                    for acc in [json!(who), Value::Null] {
                        if acc.is_null() && !anybody {
                            continue;
                        }
                        let q = json!({"referral_id": m["referral_id"], "account_id": acc, "token_in": e.pred, "amount_in": a["amount"], "hot_zap_actions": m["hot_zap_actions"], "add_liquidity_infos": m["add_liquidity_infos"]});
                        let r = view("predict_hot_zap", q.clone())?;
                        for t in FTOKS {
                            let d = big(deposit_v(&pv, who, t)) - deposit_v(&v, who, t);
                            let w = if r[1][*t].is_null() { BigInt::zero() } else { bigv(&r[1][*t]) };
                            ensure!(d == w, "e21:predict_hot_zap", "predict_hot_zap({}) leaves {} of {}, the zap left {}", q, w, t, d);
                        }
                        let mut sums: std::collections::BTreeMap<u64, BigInt> = Default::default();
                        for (i, x) in m["add_liquidity_infos"].as_array().unwrap().iter().enumerate() {
                            *sums.entry(x["pool_id"].as_u64().unwrap()).or_default() += bigv(&r[0][i]["mint_shares"]);
                        }
                        for (id, n) in sums {
                            let d = big(shares(&pv, id, who)) - shares(&v, id, who);
                            ensure!(d == n, "e21:predict_hot_zap", "predict_hot_zap({}) mints {} shares of pool {}, the zap minted {}", q, n, id, d);
                        }
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
}
pub fn zaps() -> Vec<Op> {
    let z = |name: &str, t: &'static str, n: u128, acts: Vec<Value>, infos: Vec<Value>, r: bool| {
        let mut m = json!({"hot_zap_actions": acts, "add_liquidity_infos": infos});
        if r {
            m["referral_id"] = json!(REF);
        }
        ft_call(name, BOB, t, n, m)
    };
    vec![
        z("zap one pool", T1, 90 * E18, vec![act(0, T1, T2, Some(40 * E18), 0)], vec![json!({"pool_id": 0, "amounts": strs(&[40 * E18, 115 * E18]), "min_amounts": ["0", "0"]})], true),
        z("zap all into stable", T2, 90 * E18 + 1, vec![act(3, T2, T3, Some(30 * E18), 0), act(3, T2, USD, Some(20 * E18), 0)], vec![json!({"pool_id": 3, "amounts": strs(&[40 * E18, 19_000_000, 29 * E18]), "min_shares": "1"})], true),
        z("zap twice into the same pool", T1, 90 * E18, vec![act(0, T1, T2, Some(40 * E18), 0)], vec![json!({"pool_id": 0, "amounts": strs(&[10 * E18, 30 * E18]), "min_amounts": ["0", "0"]}), json!({"pool_id": 0, "amounts": strs(&[20 * E18, 60 * E18]), "min_amounts": ["1", "1"]})], false),
        z("zap into two pools", T2, 500 * E18, vec![act(0, T2, T1, Some(200 * E18), 0), act(3, T2, T3, Some(100 * E18), 0)], vec![json!({"pool_id": 0, "amounts": strs(&[50 * E18, 60 * E18]), "min_amounts": ["0", "0"]}), json!({"pool_id": 3, "amounts": strs(&[70 * E18, 0, 90 * E18]), "min_shares": "0"})], true),
        z("zap by output", T1, 90 * E18, vec![act_out(0, T1, T2, Some(60 * E18), None)], vec![json!({"pool_id": 0, "amounts": strs(&[20 * E18, 60 * E18]), "min_amounts": ["0", "0"]})], false),
        z("zap chained", T1, 90 * E18, vec![act(0, T1, T2, Some(40 * E18), 0), act(3, T2, T3, None, 0)], vec![json!({"pool_id": 4, "amounts": strs(&[0, 90 * E18]), "min_shares": "0"})], true),
        z("zap of more than there is", T1, 90 * E18, vec![act(0, T1, T2, Some(40 * E18), 0)], vec![json!({"pool_id": 0, "amounts": strs(&[60 * E18, 315 * E18]), "min_amounts": ["0", "0"]})], false),
    ]
}
pub fn e21(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    let th = cx.thorough;
    v.push(mk(cx, "all kinds of pools", move |cx| {
        let mut s = family(cx);
        for t in [T1, T2] {
            s.mint(t, BOB, 5_000 * E18);
        }
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = family_swaps();
        sc.ops.extend(family_liq());
        sc.ops.extend(zaps());
        sc.ops.push(tx(BOB, EX, "swap_by_output", json!({"actions": [act_out(0, T1, T2, Some(345 * E18 + 1), None)], "referral_id": REF}), 1));
        sc.ops.push(tx(BOB, EX, "swap_by_output", json!({"actions": [act_out(0, T1, T2, Some(45 * E18 + 1), None), act_out(0, T1, T2, Some(55 * E18), None)], "referral_id": REF}), 1));
        sc.ops.push(tx(BOB, EX, "execute_actions_in_va", json!({"use_tokens": {T1: (99 * E18).to_string()}, "actions": [act(0, T1, T2, Some(99 * E18), 0), act(3, T2, T3, None, 0), act(3, T3, USD, None, 0)]}), 0));
        sc.ops.push(tx(BOB, EX, "swap", json!({"actions": [act(0, T1, T2, Some(9 * E18), 0), act(0, T2, T1, None, 0), act(3, T2, T3, Some(5), 0)], "referral_id": REF}), 1));
        sc.ops.push(tx(BOB, EX, "add_liquidity", json!({"pool_id": 0, "amounts": strs(&[50 * E18 + 7, 131 * E18])}), NEAR / 50));
        sc.ops.push(tx(BOB, EX, "remove_liquidity", json!({"pool_id": 0, "shares": "77777777777777777777"  , "min_amounts": ["0", "0"]}), 1));
        sc.depth = if th { 4 } else { 3 };
        sc.step = Box::new(predict_judge());
        sc
    }));
    v.push(mk(cx, "zaps that may be refused", move |cx| {
        let mut s = family(cx);
        for t in [T1, T2, T3, USD] {
            for a in [BOB, CAROL] {
                s.mint(t, a, 5_000 * E18);
            }
        }
        let v = s.env.view(&s.w, EX);
        let tvl = u(&v.get("get_degen_pool_tvl", json!({ "pool_id": 2 })));
        s.one(OWNER, "add_degen_pool_limit", json!({"pool_id": 2, "degen_pool_limit_info": {"tvl_limit": (tvl * 1001 / 1000).to_string()}}));
        let mut sc = Scenario::new("", s.env, s.w);
        for who in [BOB, CAROL] {
            let mut z = |name: &str, t: &'static str, n: u128, acts: Vec<Value>, infos: Vec<Value>| {
                sc.ops.push(ft_call(&format!("{} {}", short(who), name), who, t, n, json!({"hot_zap_actions": acts, "add_liquidity_infos": infos})));
            };
            let sw = || vec![act(0, T1, T2, Some(40 * E18), 0)];
            let in0 = || vec![json!({"pool_id": 0, "amounts": strs(&[40 * E18, 115 * E18]), "min_amounts": ["0", "0"]})];
            z("zaps", T1, 90 * E18, sw(), in0());
            z("zaps without a trade", T1, 90 * E18, vec![], in0());
            z("zaps into nothing", T1, 90 * E18, sw(), vec![]);
            z("zaps nothing into nothing", T1, 90 * E18, vec![], vec![]);
            z("zaps into two", T2, 500 * E18, vec![act(0, T2, T1, Some(200 * E18), 0), act(3, T2, T3, Some(100 * E18), 0)], vec![json!({"pool_id": 0, "amounts": strs(&[50 * E18, 60 * E18]), "min_amounts": ["0", "0"]}), json!({"pool_id": 3, "amounts": strs(&[70 * E18, 0, 90 * E18]), "min_shares": "0"})]);
            z("zaps into the limited pool", T2, 500 * E18, vec![act(0, T2, T1, Some(200 * E18), 0)], vec![json!({"pool_id": 2, "amounts": strs(&[50 * E18, 0]), "min_shares": "0"})]);
            z("zaps a little into the limited pool", T2, 5 * E18, vec![act(0, T2, T1, Some(2 * E18), 0)], vec![json!({"pool_id": 2, "amounts": strs(&[E18 / 10, 0]), "min_shares": "0"})]);
            z("zaps into a pool there is not", T1, 90 * E18, sw(), vec![json!({"pool_id": 9, "amounts": strs(&[40 * E18, 115 * E18]), "min_amounts": ["0", "0"]})]);
            z("zaps one token of three", T1, 90 * E18, sw(), vec![json!({"pool_id": 3, "amounts": strs(&[40 * E18, 0, 0]), "min_shares": "0"})]);
            z("zaps from another token", T3, 90 * E18, sw(), in0());
        }
        for t in [T1, T2] {
            sc.ops.push(tx(OWNER, EX, "remove_whitelisted_tokens", json!({ "tokens": [t] }), 1));
        }
        sc.ops.push(tx(OWNER, EX, "extend_frozenlist_tokens", json!({ "tokens": [T3] }), 1));
        sc.ops.push(tx(OWNER, EX, "extend_frozenlist_tokens", json!({ "tokens": [T2] }), 1));
        sc.ops.push(tx(OWNER, EX, "remove_frozenlist_tokens", json!({ "tokens": [T2] }), 1));
        sc.ops.push(tx(CAROL, EX, "register_tokens", json!({ "token_ids": [T2] }), 1));
        sc.ops.push(tx(CAROL, EX, "unregister_tokens", json!({ "token_ids": [T2] }), 1));
        sc.depth = if th { 4 } else { 3 };
        let judge = judge_predictions(false);
        sc.step = Box::new(move |env, pre, post, log| {
            refused_judge(env, pre, log)?;
            judge(env, pre, post, log)
        });
        sc
    }));
    for i in 0..GRID.len() {
        v.push(mk(cx, &format!("grid pool {}", i), move |cx| {
            let mut s = grid_setup(cx, 1600, 400);
            s.storage(CAROL, NEAR / 10);
            for t in [T1, T2, T3] {
                s.deposit(CAROL, t, HUGE / 8);
            }
            let mut sc = Scenario::new("", s.env, s.w);
            sc.ops = simple_liq_ops(i);
            sc.ops.extend(grid_ops(i));
            sc.depth = if th { 3 } else { 2 };
            sc.step = Box::new(predict_judge());
            sc
        }));
    }
    for i in [0usize, 2, 3, 5] {
        v.push(mk(cx, CURVES[i].name, move |cx| {
            let p = &CURVES[i];
            let s = curve_setup(cx, p, 1600, 400, true);
            let mut sc = Scenario::new("", s.env, s.w);
            sc.ops = curve_swaps(p, &[(1, 0), (2, 1000), (1, 3), (4, 1), (90, 1)]);
            sc.ops.extend(curve_liq(p));
            sc.depth = if th { 3 } else { 2 };
            sc.step = Box::new(predict_judge());
            sc
        }));
    }
    v
}
