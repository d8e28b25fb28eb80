//! E10 instant swaps, E27 hot zaps, E28 chains of trades: each against the same thing done in
//! elementary steps by a twin account in a copy of the same state.
use super::*;
use crate::chain::*;
use crate::ensure;
use crate::exh::*;
use crate::explore::*;
use crate::ops::*;
use crate::props::access::*;
use crate::props::custody::*;
use crate::rates::*;
use crate::vm::*;
use crate::Ctx;
use num_bigint::BigInt;
use serde_json::{json, Value};
use std::collections::BTreeMap;

const TWIN: &str = "twin.test";
const ALL: &[&str] = &[T1, T2, T3, WNEAR, ST, LI, USD, D24];
const WHO: &[&str] = &[OWNER, ALICE, BOB, CAROL, REF, GUARD, DAN, EX, BURROW, ROUTER, SUB];
const ROUTER: &str = "router.test";
const SUB: &str = "a.router.test";

/// Pools, volumes and fee shares: everything a trade may change besides the trader.
fn market(v: &Viewer) -> Value {
    let n = u(&v.get("get_number_of_pools", json!({}))) as u64;
    let sh: Vec<Value> = (0..n).flat_map(|p| [EX, REF].into_iter().map(move |a| (p, a))).map(|(p, a)| json!(shares(v, p, a).to_string())).collect();
    json!([v.get("get_pools", json!({"from_index": 0, "limit": 100})), v.get("list_pool_volumes", json!({"from_index": 0, "limit": 100})), sh])
}
struct Twin<'a> {
    env: &'a Env,
    w: World,
    ch: Chooser,
}
impl<'a> Twin<'a> {
    /// `w` with an account that holds exactly `have` inside.
    fn new(env: &'a Env, w: &World, have: &BTreeMap<String, u128>) -> Twin<'a> {
        let mut t = Twin { env, w: w.clone(), ch: Chooser::new(vec![]) };
        t.w.devs = u32::MAX; // everybody else behaves
        t.call(TWIN, EX, "storage_deposit", json!({}), NEAR / 10);
        for (k, n) in have {
            t.call(TWIN, EX, "register_tokens", json!({ "token_ids": [k] }), 1);
            if *n > 0 {
                let b = t.w.bal(k, TWIN);
                t.w.set_bal(k, TWIN, b + n);
                t.call(TWIN, k, "ft_transfer_call", json!({"receiver_id": EX, "amount": n.to_string(), "msg": ""}), 1);
            }
        }
        t
    }
    fn view(&self) -> Viewer {
        self.env.view(&self.w, EX)
    }
    /// The account could be set up (a frozen token cannot be deposited).
    fn has(&self, have: &BTreeMap<String, u128>) -> bool {
        let d = deposits(&self.view(), TWIN);
        have.iter().all(|(k, n)| d.get(k) == Some(n))
    }
    fn call(&mut self, who: &str, recv: &str, m: &str, a: Value, dep: u128) -> Outcome {
        let mut w = self.w.clone();
        let (root, e) = self.env.submit(&mut w, &mut self.ch, who, recv, m, a, dep);
        let mut execs = vec![e.clone()];
        self.env.settle(&mut w, &mut self.ch, &mut execs);
        let value = w.data.get(&root).cloned();
        self.env.cleanup(&mut w);
        if e.ok {
            self.w = w;
        }
        Outcome { ok: e.ok, err: e.err, value, execs }
    }
}
fn by_output(acts: &Value) -> bool {
    acts[0]["min_amount_out"].is_null()
}
fn trade(acts: &Value, first: u128, referral: &Value) -> (&'static str, Value) {
    let mut a = acts.clone();
    if !by_output(acts) && a[0]["amount_in"].is_null() {
        a[0]["amount_in"] = json!(first.to_string());
    }
    (if by_output(acts) { "swap_by_output" } else { "swap" }, json!({"actions": a, "referral_id": referral}))
}
fn wealth(w: &World, v: &Viewer, who: &str, t: &str) -> BigInt {
    big(w.bal(t, who)) + deposit_v(v, who, t) + lostfound(v, who, t)
}
fn unchanged(pre: &World, post: &World, key: &str, what: &str) -> R {
    ensure!(pre.kv[EX].digest() == post.kv[EX].digest() && pre.tok == post.tok, key, "{} was refused but left something changed", what);
    Ok(())
}

/// Judges a transfer-call that carried trades.
fn instant_judge(env: &Env, pre: &World, post: &World, log: &[Exec]) -> R {
    let e = match log.iter().find(|e| e.recv == EX && e.method == "ft_on_transfer") {
        Some(e) if log[0].recv == e.pred && log[0].method == "ft_transfer_call" => e,
        _ => return Ok(()),
    };
    let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
    let m: Value = serde_json::from_str(a["msg"].as_str().unwrap_or("")).unwrap_or_default();
    if !m["actions"].is_array() || !m["hot_zap_actions"].is_null() {
        return Ok(());
    }
    let (who, amt, tok) = (a["sender_id"].as_str().unwrap(), u(&a["amount"]), &e.pred[..]);
    let what = format!("{} of {} {} with {}", log[0].method, amt, tok, a["msg"]);
    let echo = m["client_echo"].as_str();
    let to = m["swap_out_recipient"].as_str().unwrap_or(who);
    let (v, p) = (env.view(pre, EX), env.view(post, EX));
    // the twin does the same from an inner account
    let have = BTreeMap::from([(tok.to_string(), amt)]);
    let mut t = Twin::new(env, pre, &have);
    let acts = &m["actions"];
    let (tm, ta) = trade(acts, amt, &m["referral_id"]);
    let mut may = t.has(&have) && acts.as_array().unwrap().len() > 0;
    if may {
        may = t.call(TWIN, EX, tm, ta, 1).ok;
    }
    let left: BTreeMap<String, u128> = deposits(&t.view(), TWIN).into_iter().filter(|x| x.1 > 0).collect();
    if echo.is_some() {
        let wl = |f: &str, x: &str| {
            v.get(f, json!({})).as_array().map(|a| a.iter().any(|p| { let p = p.as_str().unwrap_or(""); p == x || (p.starts_with('*') && x.ends_with(&p[1..])) })).unwrap_or(false)
        };
        let listed = wl("get_secure_sender_whitelist", who) || (wl("get_client_echo_token_id_whitelist", tok) && wl("get_client_echo_sender_id_whitelist", who));
        may = may && listed && m["swap_out_recipient"].is_null() && (who != BURROW || left.len() == 1);
    }
    ensure!(e.ok == may, "e10:accept", "{}: {} although {}: {}", what, if e.ok { "executed" } else { "refused" }, if may { "the same trades are possible from an inner account" } else { "it must not be" }, e.err);
    if !e.ok {
        return unchanged(pre, post, "e10:refused", &what);
    }
    let (mk, tw) = (market(&p), market(&t.view()));
    ensure!(mk == tw, "e10:trades", "{}: pools, volumes and fees are {}, but the same trades from an inner account give {}", what, mk, tw);
    let failed = log.iter().any(|x| !x.ok);
    for x in WHO {
        for k in ALL {
            let unwrapped = *k == WNEAR && m["skip_unwrap_near"] == json!(false) && echo.is_none();
            let gets = if *x == to { left.get(*k).cloned().unwrap_or(0) } else { 0 };
            let mut want = big(gets) - if *x == who && *k == tok { big(amt) } else { big(0) };
            if *x == EX {
                continue;
            }
            let got = if failed || echo.is_some() {
                // a transfer that did not go through is with the recipient in the exchange's books
                wealth(post, &p, x, k) - wealth(pre, &v, x, k)
            } else {
                ensure!(deposit_v(&p, x, k) == deposit_v(&v, x, k) && lostfound(&p, x, k) == lostfound(&v, x, k), "e10:inner", "{}: the inner balance of {} in {} changed", what, x, k);
                big(post.bal(k, x)) - pre.bal(k, x)
            };
            if unwrapped {
                let near = big((post.near_of(x) - pre.near_of(x) + 1) as u128) - if *x == log[0].pred { 0 } else { 1 };
                want -= &near;
                ensure!(near >= big(0) && (failed || near == big(gets)), "e10:near", "{}: {} received {} yoctoNEAR of {}", what, x, near, gets);
            }
            ensure!(got == want, "e10:paid", "{}: {} has {} {} more, should be {}", what, x, got, k, want);
        }
    }
    if let Some(msg) = echo {
        for (k, n) in &left {
            let sent = log.iter().filter(|x| x.pred == EX && x.recv == *k && x.method == "ft_transfer_call").filter(|x| {
                let y: Value = serde_json::from_str(&x.args).unwrap_or_default();
                y["receiver_id"] == who && u(&y["amount"]) == *n && y["msg"] == msg
            });
            ensure!(sent.count() == 1, "e10:echo", "{}: {} {} were not sent back with the message", what, n, k);
        }
    }
    Ok(())
}

/// Judges a hot zap.
fn zap_judge(env: &Env, pre: &World, post: &World, log: &[Exec]) -> R {
    let e = match log.iter().find(|e| e.recv == EX && e.method == "ft_on_transfer") {
        Some(e) if log[0].recv == e.pred && log[0].method == "ft_transfer_call" => e,
        _ => return Ok(()),
    };
    let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
    let m: Value = serde_json::from_str(a["msg"].as_str().unwrap_or("")).unwrap_or_default();
    if !m["hot_zap_actions"].is_array() {
        return Ok(());
    }
    let (who, amt, tok) = (a["sender_id"].as_str().unwrap(), u(&a["amount"]), &e.pred[..]);
    let what = format!("a zap of {} {} with {}", amt, tok, a["msg"]);
    let (v, p) = (env.view(pre, EX), env.view(post, EX));
    let infos = m["add_liquidity_infos"].as_array().cloned().unwrap_or_default();
    let acts = &m["hot_zap_actions"];
    let have = BTreeMap::from([(tok.to_string(), amt)]);
    let mut t = Twin::new(env, pre, &have);
    let (tm, ta) = trade(acts, amt, &m["referral_id"]);
    let mut why = String::new();
    let mut may = t.has(&have) && registered(&v, who) && !infos.is_empty() && acts.as_array().unwrap().len() > 0;
    if may {
        let o = t.call(TWIN, EX, tm, ta, 1);
        may = o.ok;
        why = o.err;
        for i in &infos {
            if !may {
                break;
            }
            let id = i["pool_id"].clone();
            let simple = pool(&v, id.as_u64().unwrap_or(u64::MAX)).kind == "SIMPLE_POOL";
            let bound = if simple { &i["min_amounts"] } else { &i["min_shares"] };
            let o = if simple {
                t.call(TWIN, EX, "add_liquidity", json!({"pool_id": id, "amounts": i["amounts"], "min_amounts": bound}), NEAR / 20)
            } else {
                t.call(TWIN, EX, "add_stable_liquidity", json!({"pool_id": id, "amounts": i["amounts"], "min_shares": bound}), NEAR / 20)
            };
            may = o.ok && !bound.is_null();
            why = o.err;
        }
    }
    ensure!(e.ok == may, "e27:accept", "{}: {} although the same steps one by one are {}: {} {}", what, if e.ok { "executed" } else { "refused" }, if may { "possible" } else { "not possible" }, e.err, why);
    if !e.ok {
        return unchanged(pre, post, "e27:refused", &what);
    }
    let n = u(&v.get("get_number_of_pools", json!({}))) as u64;
    let (mk, tw) = (market(&p), market(&t.view()));
    ensure!(mk == tw, "e27:market", "{}: pools, volumes and fees are {}, but the same steps one by one give {}", what, mk, tw);
    for id in 0..n {
        // the trader may be the referrer, too
        let (d, x) = (big(shares(&p, id, who)) - shares(&v, id, who), big(shares(&t.view(), id, TWIN)) + shares(&t.view(), id, who) - shares(&v, id, who));
        ensure!(d == x, "e27:shares", "{}: {} got {} shares of pool {}, one by one it would be {}", what, who, d, id, x);
    }
    let left = deposits(&t.view(), TWIN);
    for x in WHO {
        for k in ALL {
            let d = big(deposit_v(&p, x, k)) - deposit_v(&v, x, k);
            let want = if *x == who { *left.get(*k).unwrap_or(&0) } else { 0 };
            ensure!(d == big(want), "e27:left", "{}: the inner balance of {} in {} changed by {}, one by one {} would be left over", what, x, k, d, want);
            let w = big(post.bal(k, x)) - pre.bal(k, x);
            let want = if *k == tok && *x == who { -big(amt) } else if *k == tok && *x == EX { big(amt) } else { big(0) };
            ensure!(w == want, "e27:wallet", "{}: the wallet of {} in {} changed by {}", what, x, k, w);
        }
    }
    Ok(())
}

/// Judges a list of trades from an inner account.
fn chain_judge(env: &Env, pre: &World, post: &World, log: &[Exec]) -> R {
    let e = match log.first() {
        Some(e) if e.recv == EX && ["swap", "swap_by_output", "execute_actions", "execute_actions_in_va"].contains(&&e.method[..]) => e,
        _ => return Ok(()),
    };
    let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
    let who = &e.pred[..];
    let what = format!("{}({}) of {}", e.method, e.args, who);
    let (v, p) = (env.view(pre, EX), env.view(post, EX));
    let mine = deposits(&v, who);
    let acts = a["actions"].as_array().cloned().unwrap_or_default();
    let va = e.method == "execute_actions_in_va";
    let mut have: BTreeMap<String, u128> = mine.clone();
    if va {
        have = a["use_tokens"].as_object().map(|o| o.iter().map(|(k, x)| (k.clone(), u(x))).collect()).unwrap_or_default();
        if have.iter().any(|(k, n)| mine.get(k).unwrap_or(&0) < n) {
            ensure!(!e.ok, "e28:use", "{}: uses more than the account holds ({:?})", what, mine);
        }
    }
    if !e.ok {
        unchanged(pre, post, "e28:refused", &what)?;
    }
    // one by one: by output the amount to pay is known only afterwards, so the twin is given plenty
    let mut rich = have.clone();
    for k in acts.iter().flat_map(|x| [x["token_in"].as_str().unwrap(), x["token_out"].as_str().unwrap()]) {
        rich.insert(k.to_string(), 1_000_000_000_000_000_000_000_000_000_000_000);
    }
    let mut t = Twin::new(env, pre, &rich);
    assert!(t.has(&rich), "SETUP_FAILED twin deposit");
    // running balances: what is there before each step must cover it
    let mut bal: BTreeMap<String, BigInt> = have.iter().map(|(k, n)| (k.clone(), big(*n))).collect();
    let mut ok = !acts.is_empty();
    let out = ok && by_output(&a["actions"]);
    let mut prev: Option<u128> = None;
    let mut due: Option<(String, u128)> = None;
    for x in &acts {
        if !ok {
            break;
        }
        let mut y = x.clone();
        let key = if out { "amount_out" } else { "amount_in" };
        let (tin, tout) = (x["token_in"].as_str().unwrap().to_string(), x["token_out"].as_str().unwrap().to_string());
        if x["min_amount_out"].is_null() != out {
            ok = false;
            break;
        }
        let linked = y[key].is_null();
        if linked {
            match prev {
                Some(n) => y[key] = json!(n.to_string()),
                None => {
                    ok = false;
                    break;
                }
            }
            // a chain by output links the next output to the input just owed
            if out && due.as_ref().map(|d| d.0 != tout).unwrap_or(true) {
                ok = false;
                break;
            }
        } else if let Some((k, n)) = due.take() {
            let b = bal.entry(k).or_default();
            *b -= n;
            if *b < big(0) {
                ok = false;
                break;
            }
        }
        let b0 = deposits(&t.view(), TWIN);
        let m = if out { "swap_by_output" } else { "swap" };
        let r = t.call(TWIN, EX, m, json!({"actions": [y], "referral_id": a["referral_id"]}), 1);
        if !r.ok {
            ok = false;
            break;
        }
        let b1 = deposits(&t.view(), TWIN);
        let (cost, gain) = (b0[&tin] - b1[&tin].min(b0[&tin]), b1[&tout] - b0[&tout].min(b1[&tout]));
        if out {
            if !linked {
                *bal.entry(tout).or_default() += gain;
            }
            due = Some((tin, cost));
            prev = Some(cost);
        } else {
            let b = bal.entry(tin).or_default();
            *b -= cost;
            if *b < big(0) {
                ok = false;
                break;
            }
            *bal.entry(tout).or_default() += gain;
            prev = Some(gain);
        }
    }
    if let Some((k, n)) = due.take() {
        let b = bal.entry(k).or_default();
        *b -= n;
        ok = ok && *b >= big(0);
    }
    if va {
        ok = ok && have.iter().all(|(k, n)| mine.get(k).unwrap_or(&0) >= n);
    }
    ensure!(e.ok == ok, "e28:accept", "{} was {} ({}), but its trades one by one are {}", what, if e.ok { "executed" } else { "refused" }, e.err, if ok { "possible" } else { "not possible" });
    if !e.ok {
        return Ok(());
    }
    let (mk, tw) = (market(&p), market(&t.view()));
    ensure!(mk == tw, "e28:market", "{}: pools, volumes and fees are {}, but the trades one by one give {}", what, mk, tw);
    for x in WHO {
        for k in ALL {
            let d = big(deposit_v(&p, x, k)) - deposit_v(&v, x, k);
            let h = bal.get(*k).cloned().unwrap_or_default() - have.get(*k).cloned().unwrap_or(0);
            let want = if *x == who { h } else { big(0) };
            ensure!(d == want, "e28:paid", "{}: the inner balance of {} in {} changed by {}, one by one it is {}", what, x, k, d, want);
        }
    }
    ensure!(pre.tok == post.tok, "e28:wallet", "{} moved tokens outside", what);
    Ok(())
}

fn instants() -> Vec<Op> {
    let q = E18;
    let s = |name: &str, who: &'static str, t: &'static str, n: u128, m: Value| ft_call(&format!("{} instant {}", short(who), name), who, t, n, m);
    vec![
        s("t1>t2", ALICE, T1, 100 * q + 1, json!({"actions": [act(0, T1, T2, None, 0)]})),
        s("t1>t2 part, referral", CAROL, T1, 100 * q + 1, json!({"actions": [act(0, T1, T2, Some(60 * q), 1)], "referral_id": REF})),
        s("t1>t2 more than sent", CAROL, T1, 100 * q, json!({"actions": [act(0, T1, T2, Some(100 * q + 1), 1)]})),
        s("t1>t2 too high min", CAROL, T1, 100 * q, json!({"actions": [act(0, T1, T2, None, u128::MAX)]})),
        s("t1>t2>t3 to bob", CAROL, T1, 50 * q, json!({"actions": [act(0, T1, T2, None, 0), act(2, T2, T3, None, 0)], "swap_out_recipient": BOB})),
        s("t1>t2, t2>t3 of part, to dan", ALICE, T1, 50 * q, json!({"actions": [act(0, T1, T2, Some(20 * q), 0), act(2, T2, T3, Some(7 * q), 0)], "swap_out_recipient": DAN, "referral_id": REF})),
        s("t1>t3>t1", CAROL, T1, 50 * q, json!({"actions": [act(2, T1, T3, None, 0), act(2, T3, T1, None, 0)]})),
        s("t2>near", CAROL, T2, 100 * q, json!({"actions": [act(1, T2, WNEAR, None, 0)], "skip_unwrap_near": false})),
        s("t2>near to bob", ALICE, T2, 100 * q, json!({"actions": [act(1, T2, WNEAR, None, 0)], "skip_unwrap_near": false, "swap_out_recipient": BOB})),
        s("t2>wnear kept wrapped", BOB, T2, 100 * q, json!({"actions": [act(1, T2, WNEAR, None, 0)], "skip_unwrap_near": true})),
        s("near>t2, part", ALICE, WNEAR, 100 * q, json!({"actions": [act(1, WNEAR, T2, Some(30 * q), 0)], "skip_unwrap_near": false})),
        s("by output t1>t2", CAROL, T1, 100 * q, json!({"actions": [act_out(0, T1, T2, Some(q), None)]})),
        s("by output t1>t2>near", CAROL, T1, 100 * q, json!({"actions": [act_out(1, T2, WNEAR, Some(q), None), act_out(0, T1, T2, None, Some(90 * q))], "referral_id": REF, "swap_out_recipient": BOB})),
        s("by output, too low max", CAROL, T1, 100 * q, json!({"actions": [act_out(0, T1, T2, Some(q), Some(1))]})),
        s("by output, not enough sent", CAROL, T1, q / 10, json!({"actions": [act_out(0, T1, T2, Some(q), None)]})),
        s("by output, unlinked", CAROL, T1, 100 * q, json!({"actions": [act_out(1, T2, WNEAR, Some(q), None), act_out(0, T2, T1, None, None)]})),
        s("of something else", CAROL, T1, 100 * q, json!({"actions": [act(0, T2, T1, Some(5), 0)]})),
        s("in the wrong pool", CAROL, T1, 100 * q, json!({"actions": [act(1, T1, T2, None, 0)]})),
        s("without trades", CAROL, T1, 100 * q, json!({"actions": []})),
        s("mixed kinds", CAROL, T1, 100 * q, json!({"actions": [act(0, T1, T2, None, 0), act_out(1, T2, WNEAR, Some(1), None)]})),
        s("second fails", CAROL, T1, 100 * q, json!({"actions": [act(0, T1, T2, None, 0), act(2, T2, T3, None, u128::MAX)]})),
        s("to bob with a message", CAROL, T1, 100 * q, json!({"actions": [act(0, T1, T2, None, 0)], "swap_out_recipient": BOB, "client_echo": "x"})),
        s("of dust", CAROL, T1, 1, json!({"actions": [act(0, T1, T2, None, 0)]})),
    ]
}

pub fn e10(cx: &Ctx) -> Mk {
    let th = cx.thorough;
    let mut v: Mk = vec![];
    v.push(mk(cx, "instant swaps", move |cx| {
        let mut s = mix(cx);
        s.env.actors.insert(T2.into(), Actor::Token { fail: true });
        s.env.actors.insert(WNEAR.into(), Actor::Wnear { fail: true });
        for t in TOKS {
            s.mint(t, CAROL, 1_000_000 * E18);
        }
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = instants();
        sc.ops.push(tx(BOB, EX, "swap", json!({"actions": [act(0, T1, T2, Some(1_000 * E18), 0)]}), 1));
        sc.ops.push(tx(OWNER, EX, "remove_referral", json!({ "referral_id": REF }), 1));
        sc.ops.push(tx(OWNER, EX, "extend_frozenlist_tokens", json!({ "tokens": [T3] }), 1));
        sc.ops.push(tx(GUARD, EX, "modify_total_fee", json!({"pool_id": 0, "total_fee": 500}), 1));
        sc.ops.push(op("bob closes his account", |x| {
            let v = x.view(EX);
            for (p, n) in [(0, 2), (2, 3)] {
                let s = shares(&v, p, BOB);
                x.call(BOB, EX, "remove_liquidity", json!({"pool_id": p, "shares": s.to_string(), "min_amounts": vec!["0"; n]}), 1);
            }
            for t in TOKS {
                x.call(BOB, EX, "withdraw", json!({"token_id": t, "amount": "0", "unregister": true}), 1);
                x.call(BOB, EX, "unregister_tokens", json!({"token_ids": [t]}), 1);
            }
            x.call(BOB, EX, "storage_unregister", json!({}), 1);
            Ok(())
        }));
        sc.depth = if th { 3 } else { 3 };
        sc.step = Box::new(instant_judge);
        sc
    }));
    v.push(mk(cx, "instant swaps in quoted and mixed-decimals pools", move |cx| {
        let mut s = family(cx);
        for t in ALL {
            s.mint(t, CAROL, 1_000_000 * E24);
        }
        let mut sc = Scenario::new("", s.env, s.w);
        let f = |name: &str, t: &'static str, n: u128, m: Value| ft_call(&format!("carol instant {}", name), CAROL, t, n, m);
        sc.ops = vec![
            f("st>li>near", ST, 50 * E24, json!({"actions": [act(1, ST, LI, None, 0), act(1, LI, WNEAR, None, 0)], "skip_unwrap_near": false, "referral_id": REF})),
            f("near>st by part to bob", WNEAR, 50 * E24, json!({"actions": [act(1, WNEAR, ST, Some(20 * E24), 0)], "skip_unwrap_near": false, "swap_out_recipient": BOB})),
            f("t1>usd>t3>deep", T1, 500 * E18, json!({"actions": [act(2, T1, USD, None, 0), act(3, USD, T3, None, 0), act(4, T3, D24, None, 0)], "referral_id": REF})),
            f("usd>t1", USD, 70 * E6 + 1, json!({"actions": [act(2, USD, T1, None, 1)], "skip_degen_price_sync": true})),
            f("deep>t3 dust", D24, 999_999, json!({"actions": [act(4, D24, T3, None, 0)]})),
            f("t2>usd dust to bob", T2, 999_999, json!({"actions": [act(3, T2, USD, None, 0)], "swap_out_recipient": BOB})),
            f("usd by output", USD, E6, json!({"actions": [act_out(3, USD, T3, Some(1), None)]})),
            f("t1>t2, usd min", T1, 77 * E18, json!({"actions": [act(0, T1, T2, None, 0), act(3, T2, USD, Some(30 * E18), 29 * E6)]})),
        ];
        sc.ops.extend(family_swaps());
        sc.depth = if th { 3 } else { 3 };
        sc.step = Box::new(instant_judge);
        sc
    }));
    v.push(mk(cx, "echo messages", move |cx| {
        let mut s = mix(cx);
        for who in [ROUTER, SUB, BURROW, ALICE] {
            let m = Actor::Menu(vec![("ft_on_transfer", vec![Reply::Amount(0, 0), Reply::Amount(1, 1), Reply::Amount(2, 0), Reply::Fail])]);
            s.env.actors.insert(who.into(), m);
            s.mint(T1, who, 1_000_000 * E18);
        }
        s.env.actors.insert(T2.into(), Actor::Token { fail: true });
        s.env.max_dev = 1;
        let mut sc = Scenario::new("", s.env, s.w);
        let q = E18;
        for who in [ROUTER, SUB, BURROW, ALICE] {
            sc.ops.push(ft_call(&format!("{} t1>t2 with echo", who), who, T1, 100 * q, json!({"actions": [act(0, T1, T2, None, 0)], "client_echo": "hello", "extra_tgas_for_client_echo": 20})));
        }
        for who in [ROUTER, BURROW] {
            sc.ops.push(ft_call(&format!("{} t1>t2 of part with echo", who), who, T1, 100 * q, json!({"actions": [act(0, T1, T2, Some(3 * q), 0)], "client_echo": ""})));
        }
        sc.ops.push(ft_call("router to bob with echo", ROUTER, T1, 100 * q, json!({"actions": [act(0, T1, T2, None, 0)], "swap_out_recipient": BOB, "client_echo": "x"})));
        for (kind, key, pats) in [("secure_sender", "sender_ids", vec![SUB, "*.router.test", BURROW, T1]), ("client_echo_sender_id", "sender_ids", vec!["*.router.test", ROUTER, BURROW]), ("client_echo_token_id", "token_ids", vec![T1, "*.test", T2])] {
            for pat in pats {
                for add in ["extend", "remove"] {
                    let m: &'static str = Box::leak(format!("{}_{}_whitelist", add, kind).into_boxed_str());
                    let mut a = json!({});
                    a[key] = json!([pat]);
                    sc.ops.push(tx(OWNER, EX, m, a, 1));
                }
            }
        }
        sc.depth = if th { 6 } else { 5 };
        sc.step = Box::new(instant_judge);
        sc
    }));
    v
}

pub fn e27(cx: &Ctx) -> Mk {
    let th = cx.thorough;
    vec![mk(cx, "zaps", move |cx| {
        let mut s = family(cx);
        for t in [T1, T2, USD] {
            s.mint(t, BOB, 5_000 * E18);
            s.mint(t, DAN, 5_000 * E18);
        }
        s.one(OWNER, "insert_referral", json!({"referral_id": BOB, "fee_bps": 1_000}));
        {
        }
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = crate::props::liquidity::zaps();
        let mut z = |name: &str, who: &'static str, t: &'static str, n: u128, acts: Vec<Value>, infos: Vec<Value>| {
            sc.ops.push(ft_call(&format!("{} {}", short(who), name), who, t, n, json!({"hot_zap_actions": acts, "add_liquidity_infos": infos})));
        };
        let half = vec![act(0, T1, T2, Some(40 * E18), 0)];
        let ok = json!({"pool_id": 0, "amounts": strs(&[40 * E18, 115 * E18]), "min_amounts": ["0", "0"]});
        z("zaps without an account", DAN, T1, 90 * E18, half.clone(), vec![ok.clone()]);
        z("zaps with an impossible trade", BOB, T1, 90 * E18, vec![act(0, T1, T2, Some(40 * E18), u128::MAX)], vec![ok.clone()]);
        z("zaps, first amount open", BOB, T1, 90 * E18, vec![act(0, T1, T2, None, 0)], vec![json!({"pool_id": 3, "amounts": strs(&[50 * E18, 0, 0]), "min_shares": "1"})]);
        z("zaps below the minimum", BOB, T1, 90 * E18, half.clone(), vec![json!({"pool_id": 0, "amounts": strs(&[40 * E18, 115 * E18]), "min_amounts": ["0", (115 * E18).to_string()]})]);
        z("zaps without bound", BOB, T1, 90 * E18, half.clone(), vec![json!({"pool_id": 0, "amounts": strs(&[40 * E18, 115 * E18])})]);
        z("zaps stable without bound", BOB, T1, 90 * E18, half.clone(), vec![json!({"pool_id": 3, "amounts": strs(&[40 * E18, 0, 0])})]);
        z("zaps for too many shares", BOB, T1, 90 * E18, half.clone(), vec![json!({"pool_id": 3, "amounts": strs(&[40 * E18, 0, 0]), "min_shares": (41 * E18).to_string()})]);
        z("zaps, second liquidity impossible", BOB, T1, 90 * E18, half.clone(), vec![ok.clone(), ok.clone()]);
        z("zaps, half of the rest into liquidity", BOB, T1, 80 * E18, half.clone(), vec![json!({"pool_id": 2, "amounts": strs(&[20 * E18, 0]), "min_shares": "0"})]);
        z("zaps exactly half", BOB, T1, 80 * E18, half.clone(), vec![ok.clone()]);
        z("zaps without liquidity", BOB, T1, 90 * E18, half.clone(), vec![]);
        z("zaps without trades", BOB, T1, 90 * E18, vec![], vec![ok.clone()]);
        z("zaps in a degen pool", BOB, T1, 90 * E18, vec![act(2, T1, USD, Some(40 * E18), 0)], vec![json!({"pool_id": 2, "amounts": strs(&[50 * E18, 100 * E6]), "min_shares": "0"})]);
        z("zaps with one token only", BOB, T1, 90 * E18, vec![act(0, T1, T2, Some(1), 0)], vec![json!({"pool_id": 2, "amounts": strs(&[50 * E18, 0]), "min_shares": "0"})]);
        z("zaps in a rated pool", BOB, WNEAR, 90 * E24, vec![act(1, WNEAR, ST, Some(40 * E24), 0)], vec![json!({"pool_id": 1, "amounts": strs(&[50 * E24, 10 * E24, 0]), "min_shares": "0"})]);
        for r in [BOB, REF] {
            sc.ops.push(ft_call(&format!("bob zaps in the name of {}", r), BOB, T1, 90 * E18, json!({"hot_zap_actions": half, "add_liquidity_infos": [ok], "referral_id": r})));
        }
        sc.init.set_bal(WNEAR, BOB, 1_000 * E24);
        sc.ops.push(tx(ALICE, EX, "swap", json!({"actions": [act(0, T1, T2, Some(1_000 * E18), 0)]}), 1));
        sc.ops.push(tx(OWNER, EX, "extend_frozenlist_tokens", json!({ "tokens": [T2] }), 1));
        sc.ops.push(tx(OWNER, EX, "add_degen_pool_limit", json!({"pool_id": 2, "degen_pool_limit_info": {"tvl_limit": (2_150_000u128 * E24 / E24).to_string()}}), 1));
        sc.ops.push(tx(OWNER, EX, "update_degen_pool_limit", json!({"pool_id": 2, "degen_pool_limit_info": {"tvl_limit": "1"}}), 1));
        sc.depth = if th { 5 } else { 4 };
        sc.step = Box::new(zap_judge);
        sc
    })]
}

pub fn e28(cx: &Ctx) -> Mk {
    let th = cx.thorough;
    let mut v: Mk = vec![];
    v.push(mk(cx, "chains of trades", move |cx| {
        let s = mix(cx);
        let mut sc = Scenario::new("", s.env, s.w);
        let q = E18;
        let mut add = |who: &'static str, acts: Vec<Value>, r: bool| {
            let rf = if r { json!(REF) } else { Value::Null };
            let out = acts[0]["min_amount_out"].is_null();
            sc.ops.push(tx(who, EX, "execute_actions", json!({"actions": acts, "referral_id": rf}), 1));
            sc.ops.push(tx(who, EX, if out { "swap_by_output" } else { "swap" }, json!({"actions": acts, "referral_id": rf}), 1));
            for (n, m) in [(0u128, 1u128), (500 * q, 0), (100 * q + 1, 3_000 * q), (60_000 * q, 0), (500 * q, 1)] {
                let mut us = serde_json::Map::new();
                if n > 0 {
                    us.insert(T1.into(), json!(n.to_string()));
                }
                if m > 0 {
                    us.insert(T2.into(), json!(m.to_string()));
                }
                sc.ops.push(tx(who, EX, "execute_actions_in_va", json!({"use_tokens": us, "actions": acts, "referral_id": rf}), 1));
            }
        };
        add(BOB, vec![act(0, T1, T2, Some(100 * q), 0), act(1, T2, WNEAR, None, 0)], true);
        add(BOB, vec![act(0, T1, T2, Some(500 * q), 0), act(0, T2, T1, None, 0), act(2, T1, T3, None, 0)], false);
        add(BOB, vec![act(0, T1, T2, Some(100 * q), 0), act(2, T2, T3, Some(7), 0), act(0, T1, T2, Some(400 * q + 1), 0)], true);
        add(BOB, vec![act(2, T1, T2, Some(100 * q), 0), act(2, T2, T1, None, 99 * q)], true);
        add(BOB, vec![act(0, T1, T2, Some(100 * q), 0), act(1, WNEAR, T2, None, 0)], true);
        add(BOB, vec![act(0, T1, T2, None, 0)], false);
        add(BOB, vec![act_out(1, T2, WNEAR, Some(20 * q), None), act_out(0, T1, T2, None, None)], true);
        add(BOB, vec![act_out(0, T1, T2, Some(20 * q), None), act_out(0, T1, T2, Some(30 * q), Some(15 * q))], true);
        add(BOB, vec![act_out(0, T2, T1, Some(20 * q), None), act_out(0, T1, T2, None, None)], false);
        add(BOB, vec![act_out(1, T2, WNEAR, Some(20 * q), None), act_out(1, WNEAR, T2, Some(3), None), act_out(0, T1, T2, None, None)], false);
        add(BOB, vec![act_out(1, T2, WNEAR, Some(20 * q), None), act_out(0, T2, T1, None, None)], false);
        add(BOB, vec![act_out(0, T1, T2, None, None)], false);
        add(BOB, vec![act_out(1, T2, WNEAR, Some(20 * q), None), act_out(0, T1, T2, Some(600 * q), None)], false);
        add(BOB, vec![act_out(0, T1, T2, Some(20 * q), None), act_out(0, T1, T2, None, None)], false);
        add(BOB, vec![act_out(0, T1, T2, Some(20 * q), None), act(0, T1, T2, Some(5), 0)], false);
        add(BOB, vec![act(0, T1, T2, Some(20 * q), 0), act_out(0, T1, T2, Some(5), None)], false);
        sc.depth = if th { 5 } else { 4 };
        sc.step = Box::new(chain_judge);
        sc
    }));
    v.push(mk(cx, "chains through quoted and mixed-decimals pools", move |cx| {
        let s = family(cx);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = family_swaps();
        let q = E18;
        for acts in [
            vec![act(0, T2, T1, Some(100 * q), 0), act(2, T1, USD, None, 0), act(3, USD, T3, None, 0), act(4, T3, D24, None, 0), act(4, D24, T3, None, 0)],
            vec![act(1, WNEAR, ST, Some(E24), 0), act(1, ST, LI, None, 0), act(1, LI, WNEAR, None, 0), act(1, WNEAR, LI, Some(5), 0)],
            vec![act(3, USD, T2, Some(1), 0), act(0, T2, T1, None, 0), act(2, T1, USD, None, 0)],
            vec![act(3, T3, T2, Some(q), 0), act(0, T2, T1, Some(40_000 * q), 0), act(3, T2, T3, Some(q), u128::MAX)],
        ] {
            sc.ops.push(tx(BOB, EX, "swap", json!({"actions": acts, "referral_id": REF}), 1));
            sc.ops.push(tx(BOB, EX, "execute_actions_in_va", json!({"use_tokens": {T2: (100 * q).to_string(), T1: (3 * q).to_string(), WNEAR: E24.to_string()}, "actions": acts, "referral_id": REF}), 1));
        }
        sc.depth = if th { 5 } else { 4 };
        sc.step = Box::new(chain_judge);
        sc
    }));
    v
}
