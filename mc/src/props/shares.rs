//! E04 pledged shares, E20 transfers with a call, E23 liquidation of pledged shares.
use super::*;
use crate::chain::*;
use crate::ensure;
use crate::exh::*;
use crate::explore::*;
use crate::ops::*;
use crate::rates::E18;
use crate::props::custody::*;
use crate::vm::*;
use crate::Ctx;
use num_bigint::BigInt;
use serde_json::{json, Value};

pub fn ledger(w: &World, who: &str, acct: &str, pool: u64) -> BigInt {
    w.g(&format!("led.{}.{}.shadow_ref_v1-{}", who, acct, pool))
}
/// Alice and bob hold shares of pool 0 (simple); the farm and the lending market may refuse.
pub fn pledge_setup(cx: &Ctx) -> Sb {
    let mut s = exchange(&cx.ex, 1600, 400);
    s.env.actors.insert(BOOST.into(), Actor::Shadow);
    s.env.actors.insert(BURROW.into(), Actor::Shadow);
    for a in [OWNER, ALICE, BOB, CAROL] {
        s.storage(a, NEAR / 10);
        for t in [T1, T2] {
            s.deposit(a, t, 1_000_000_000);
        }
    }
    s.simple_pool(T1, T2, 30);
    s.add_liq(OWNER, 0, &[10_000_000, 30_000_000]);
    s.add_liq(ALICE, 0, &[100_000, 300_000]);
    s.add_liq(BOB, 0, &[100_000, 300_000]);
    s.must(CAROL, EX, "mft_register", json!({"token_id": ":0", "account_id": CAROL}), NEAR / 10);
    s
}
pub fn rec(v: &Viewer, who: &str, pool: u64) -> (u128, u128) {
    shadow(v, who).get(&pool).cloned().unwrap_or((0, 0))
}
pub fn shadow_op(who: &'static str, action: &'static str, amount: Option<u128>, dep: u128) -> Op {
    let mut a = json!({"action": action, "pool_id": 0, "msg": ""});
    if let Some(n) = amount {
        a["amount"] = json!(n.to_string());
    }
    txn(&format!("{} {} {}", short(who), action, amount.map(|x| x.to_string()).unwrap_or("all".into())), who, EX, "shadow_action", a, dep)
}
fn near_slack(env: &Env, w: &World) -> BigInt {
    let v = env.view(w, EX);
    let mut s = BigInt::from(w.near_of(EX)) - big(w.kv[EX].usage as u128 * BYTE);
    for a in ACCS {
        let b = v.get("storage_balance_of", json!({ "account_id": a }));
        if !b.is_null() {
            s -= u(&b["total"]);
        }
    }
    s
}

/// Which amounts a request may name: judged against the state before it.
fn pledge_step(env: &Env, pre: &World, post: &World, log: &[Exec]) -> R {
    let e = match log.first() {
        Some(e) if e.recv == EX && e.pred != EX => e,
        _ => return Ok(()),
    };
    let v = env.view(pre, EX);
    let p = env.view(post, EX);
    let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
    let who = &e.pred[..];
    let bal = shares(&v, 0, who);
    let (f, b) = rec(&v, who, 0);
    let free = bal.saturating_sub(f.max(b));
    let amt = |k: &str, all: u128| a[k].as_str().and_then(|x| x.parse().ok()).unwrap_or(all);
    let reg = registered(&v, who);
    match &e.method[..] {
        "shadow_action" => {
            let (max, to, farm) = match a["action"].as_str().unwrap() {
                "ToFarming" => (bal.saturating_sub(f), true, true),
                "ToBurrowland" => (bal.saturating_sub(b), true, false),
                "FromFarming" => (f, false, true),
                _ => (b, false, false),
            };
            let n = amt("amount", max);
            ensure!(
                e.ok == (reg && n > 0 && n <= max),
                "e04:request",
                "{} of {} by {} (has {} shares, {} farming, {} lending) was {}: {}",
                a["action"], n, who, bal, f, b, if e.ok { "accepted" } else { "refused" }, e.err
            );
            if e.ok {
                let (f2, b2) = rec(&p, who, 0);
                // with the answer in the same step: what the other contract did decides
                let ans = log.iter().find(|e| e.method == "on_cast_shadow" || e.method == "on_remove_shadow").map(|e| e.ok);
                let want = match (to, ans) {
                    (true, None) | (true, Some(true)) => if farm { (f + n, b) } else { (f, b + n) },
                    (false, Some(true)) => if farm { (f - n, b) } else { (f, b - n) },
                    _ => (f, b),
                };
                ensure!((f2, b2) == want, "e04:record", "{} of {} by {}: pledges went from {:?} to {:?}", a["action"], n, who, (f, b), (f2, b2));
            }
        }
        "mft_transfer" | "mft_transfer_all_call" | "donation_share" | "remove_liquidity" => {
            let k = if e.method == "remove_liquidity" { "shares" } else { "amount" };
            let n = amt(k, free);
            ensure!(
                e.ok == (n > 0 && n <= free && (e.method != "remove_liquidity" || reg)),
                "e04:spend",
                "{} of {} shares by {} (has {}, of which {} farming, {} lending) was {}: {}",
                e.method, n, who, bal, f, b, if e.ok { "accepted" } else { "refused" }, e.err
            );
            if e.ok {
                ensure!(shares(&p, 0, who) == bal - n, "e04:spent", "{} of {} shares by {}: {} before, {} after", e.method, n, who, bal, shares(&p, 0, who));
            }
            ensure!(rec(&p, who, 0) == (f, b), "e04:record", "{} by {} changed the pledges", e.method, who);
        }
        "remove_liquidity_by_tokens" => {
            let burned = bal as i128 - shares(&p, 0, who) as i128;
            ensure!(burned >= 0 && burned as u128 <= free, "e04:spend", "{}({}) by {} (has {}, of which {} farming, {} lending) burned {} shares", e.method, e.args, who, bal, f, b, burned);
            if !e.ok {
                let n: Option<u128> = v.try_get("predict_remove_liquidity_by_tokens", json!({"pool_id": 0, "amounts": a["amounts"]})).ok().map(|x| u(&x));
                let fits = n.map(|n| n > 0 && n <= free && n <= u(&a["max_burn_shares"])).unwrap_or(false);
                ensure!(!(reg && fits), "e04:spend", "{}({}) by {} (has {}, of which {} farming, {} lending) burns {:?} and was refused: {}", e.method, e.args, who, bal, f, b, n, e.err);
            }
            ensure!(rec(&p, who, 0) == (f, b), "e04:record", "{} by {} changed the pledges", e.method, who);
        }
        "storage_unregister" => {
            ensure!(!(e.ok && f.max(b) > 0), "e04:leave", "{} closed the account with pledges {:?}", who, (f, b));
        }
        _ => {}
    }
    Ok(())
}

fn pledge_inv(env: &Env, w: &World) -> R {
    let v = env.view(w, EX);
    for who in [ALICE, BOB, CAROL] {
        let bal = shares(&v, 0, who);
        let (f, b) = rec(&v, who, 0);
        ensure!(f.max(b) <= bal, "e04:backed", "{} holds {} shares but {} are farming and {} lending", who, bal, f, b);
        for (what, actor, r) in [("farming", BOOST, f), ("lending", BURROW, b)] {
            let l = ledger(w, actor, who, 0);
            ensure!(big(r) >= l, "e04:released", "{}: {} has {} of the shares pledged but the exchange keeps only {} back", who, what, l, r);
            if w.quiet() {
                ensure!(big(r) == l, "e04:stuck", "{}: nothing is in flight, {} holds {} of the shares, the exchange keeps {} back", who, what, l, r);
            }
        }
    }
    Ok(())
}

pub fn e04(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    let th = cx.thorough;
    for pending in [false, true] {
        v.push(mk(cx, if pending { "requests overlap" } else { "one request at a time" }, move |cx| {
            let mut s = pledge_setup(cx);
            s.env.menus.insert(CAROL.into(), vec![("mft_on_transfer", vec![Reply::Ok("\"0\"".into())])]);
            let all = shares(&s.env.view(&s.w, EX), 0, ALICE);
            let mut sc = Scenario::new("", s.env, s.w);
            sc.interleave = pending;
            sc.max_pending = 4;
            sc.ops = vec![
                shadow_op(ALICE, "ToFarming", None, NEAR / 100),
                shadow_op(ALICE, "ToFarming", Some(all / 3), NEAR / 100),
                shadow_op(ALICE, "ToBurrowland", Some(all / 2 + 1), NEAR / 100),
                shadow_op(ALICE, "ToBurrowland", None, NEAR / 100),
                shadow_op(ALICE, "FromFarming", None, 1),
                shadow_op(ALICE, "FromFarming", Some(all / 3), 1),
                shadow_op(ALICE, "FromBurrowland", Some(all / 4), 1),
                shadow_op(ALICE, "FromBurrowland", None, 1),
                tx(ALICE, EX, "mft_transfer", json!({"token_id": ":0", "receiver_id": CAROL, "amount": (all / 2).to_string()}), 1),
                tx(ALICE, EX, "donation_share", json!({"pool_id": 0, "amount": (all / 2 + 1).to_string()}), 1),
                tx(ALICE, EX, "remove_liquidity", json!({"pool_id": 0, "shares": (all / 2 + 2).to_string(), "min_amounts": ["0", "0"]}), 1),
            ];
            if !pending {
                sc.ops.push(shadow_op(ALICE, "ToFarming", Some(all + 1), NEAR / 100));
                sc.ops.push(shadow_op(ALICE, "ToFarming", Some(0), NEAR / 100));
                sc.ops.push(tx(ALICE, EX, "donation_share", json!({ "pool_id": 0 }), 1));
                sc.ops.push(tx(ALICE, EX, "mft_transfer_all_call", json!({"token_id": ":0", "receiver_id": CAROL, "msg": ""}), 1));
                sc.ops.push(tx(ALICE, EX, "storage_unregister", json!({}), 1));
                sc.ops.push(tx(BOB, EX, "mft_transfer", json!({"token_id": ":0", "receiver_id": ALICE, "amount": (all / 5).to_string()}), 1));
                sc.ops.push(shadow_op(BOB, "ToFarming", Some(all / 5), NEAR / 100));
                sc.ops.push(tx(ALICE, EX, "add_liquidity", json!({"pool_id": 0, "amounts": ["1000", "3000"]}), NEAR / 100));
            }
            sc.depth = match (pending, th) {
                (false, false) => 5,
                (false, true) => 6,
                (true, false) => 7,
                (true, true) => 8,
            };
            let s0 = near_slack(&sc.env, &sc.init);
            sc.inv = Box::new(move |env, w| {
                pledge_inv(env, w)?;
                let s = near_slack(env, w);
                ensure!(s >= s0, "e04:near", "storage fees were returned twice: the exchange is {} yoctoNEAR short of what it keeps for storage", s0.clone() - s);
                if w.quiet() && registered(&env.view(w, EX), ALICE) {
                    ensure!(s <= s0.clone() + 1000, "e04:fee", "the storage fee of a pledge that ended was not returned ({} yoctoNEAR)", s - s0.clone());
                }
                Ok(())
            });
            sc.step = Box::new(pledge_step);
            sc
        }));
    }
    v.push(mk(cx, "a stable pool, to the last free share", move |cx| {
        let mut s = exchange(&cx.ex, 1600, 400);
        s.env.actors.insert(BOOST.into(), Actor::Shadow);
        s.env.actors.insert(BURROW.into(), Actor::Shadow);
        for a in [OWNER, ALICE] {
            s.storage(a, NEAR / 10);
            for t in [T1, T2] {
                s.deposit(a, t, 1_000_000 * E18);
            }
        }
        s.stable_pool(&[T1, T2], &[18, 18], 25, 240);
        s.add_stable(OWNER, 0, &[100_000 * E18, 110_000 * E18]);
        s.add_stable(ALICE, 0, &[1_000 * E18, 1_000 * E18 + 7]);
        s.must(CAROL, EX, "mft_register", json!({"token_id": ":0", "account_id": CAROL}), NEAR / 10);
        s.env.menus.insert(CAROL.into(), vec![("mft_on_transfer", vec![Reply::Ok("\"0\"".into())])]);
        // nothing but shares
        for t in [T1, T2] {
            s.one(ALICE, "withdraw", json!({"token_id": t, "amount": "0", "unregister": true}));
        }
        let all = shares(&s.env.view(&s.w, EX), 0, ALICE);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = vec![
            tx(ALICE, EX, "storage_unregister", json!({}), 1),
            shadow_op(ALICE, "ToFarming", None, NEAR / 100),
            shadow_op(ALICE, "ToFarming", Some(all / 3), NEAR / 100),
            shadow_op(ALICE, "ToBurrowland", Some(all / 2 + 1), NEAR / 100),
            shadow_op(ALICE, "FromFarming", None, 1),
            shadow_op(ALICE, "FromBurrowland", Some(all / 4), 1),
        ];
        for over in [0u128, 1] {
            let part = move |x: &X, d: u128| {
                let v = x.view(EX);
                let (f, b) = rec(&v, ALICE, 0);
                ((shares(&v, 0, ALICE) - f.max(b)) / d + over).to_string()
            };
            let what = if over == 0 { "all she may" } else { "one share too many" };
            for d in if over == 0 { vec![1u128, 2] } else { vec![1] } {
                sc.ops.push(op(format!("alice transfers {} / {}", what, d), move |x| {
                    let n = part(x, d);
                    if n == "0" {
                        return x.skip();
                    }
                    x.call(ALICE, EX, "mft_transfer", json!({"token_id": ":0", "receiver_id": CAROL, "amount": n}), 1);
                    Ok(())
                }));
                sc.ops.push(op(format!("alice removes {} / {}", what, d), move |x| {
                    let n = part(x, d);
                    if n == "0" {
                        return x.skip();
                    }
                    x.call(ALICE, EX, "remove_liquidity", json!({"pool_id": 0, "shares": n, "min_amounts": ["0", "0"]}), 1);
                    Ok(())
                }));
            }
            sc.ops.push(op(format!("alice donates {}", what), move |x| {
                let n = part(x, 1);
                if n == "0" {
                        return x.skip();
                    }
                    x.call(ALICE, EX, "donation_share", json!({"pool_id": 0, "amount": n}), 1);
                Ok(())
            }));
            for both in [false, true] {
                for bound in [0u128, 1, 1 << 100] {
                    sc.ops.push(op(format!("alice takes {}tokens for {}, bound {}", if both { "both " } else { "" }, what, match bound { 0 => "what it burns", 1 => "one more", _ => "none" }), move |x| {
                        let v = x.view(EX);
                        let (f, b) = rec(&v, ALICE, 0);
                        let free = shares(&v, 0, ALICE) - f.max(b);
                        let am = |n: u128| strs(&[n, if both { n / 2 } else { 0 }]);
                        let burn = |n: u128| v.try_get("predict_remove_liquidity_by_tokens", json!({"pool_id": 0, "amounts": am(n)})).ok().map(|x| u(&x)).unwrap_or(u128::MAX);
                        // the largest amount that burns no more than the free shares
                        let (mut lo, mut hi) = (0u128, 3_000 * E18);
                        while hi - lo > 1 {
                            let m = (lo + hi) / 2;
                            if burn(m) <= free {
                                lo = m
                            } else {
                                hi = m
                            }
                        }
                        let n = lo + over;
                        if n == 0 {
                            return x.skip();
                        }
                        let max = burn(n).saturating_add(bound);
                        x.call(ALICE, EX, "remove_liquidity_by_tokens", json!({"pool_id": 0, "amounts": am(n), "max_burn_shares": max.to_string()}), 1);
                        Ok(())
                    }));
                }
            }
        }
        sc.depth = if th { 5 } else { 4 };
        sc.inv = Box::new(pledge_inv);
        sc.step = Box::new(pledge_step);
        sc
    }));
    v
}

/// Judges the end of a transfer with a call: the unused part goes back, no more, and is reported.
fn resolve_step(env: &Env, pre: &World, post: &World, log: &[Exec]) -> R {
    for e in log {
        if e.recv != EX || e.method != "mft_resolve_transfer" || e.pred != EX {
            continue;
        }
        let (v, p) = (env.view(pre, EX), env.view(post, EX));
        let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
        let (id, from, to, n) = (a["token_id"].as_str().unwrap(), a["sender_id"].as_str().unwrap(), a["receiver_id"].as_str().unwrap(), u(&a["amount"]));
        let unused = match &e.vals[0] {
            Some(b) => serde_json::from_slice::<Value>(b).ok().and_then(|x| x.as_str().and_then(|s| s.parse::<u128>().ok())).unwrap_or(n).min(n),
            None => n,
        };
        let of = |v: &Viewer, who: &str| u(&v.get("mft_balance_of", json!({"token_id": id, "account_id": who})));
        let lp = id.starts_with(':');
        let bal = of(&v, to);
        let want = unused.min(bal);
        let (f, b) = if lp { rec(&v, to, id[1..].parse().unwrap()) } else { (0, 0) };
        let reg = registered(&v, from);
        let target = if reg { from } else { EX };
        let can = target != to && want <= bal - f.max(b).min(bal) && (if lp { v.get("mft_has_registered", json!({"token_id": id, "account_id": target})) == json!(true) } else { reg });
        let moved = big(of(&p, target)) - of(&v, target);
        for w in ACCS {
            let d = big(of(&p, w)) - of(&v, w);
            let x = if *w == target && target != to { moved.clone() } else if *w == to && target != to { -moved.clone() } else { big(0) };
            ensure!(d == x, "e20:others", "resolving a transfer of {} {} from {} to {} changed the balance of {} by {}, not {}", n, id, from, to, w, d, x);
        }
        ensure!(moved >= big(0) && moved <= big(want), "e20:refund", "resolving a transfer of {} {} from {} to {} (unused {}, still there {}) gave {} back", n, id, from, to, unused, bal, moved);
        if can {
            ensure!(e.ok, "e20:resolve", "resolving a transfer of {} {} from {} to {} (unused {}, still there {}) failed: {}", n, id, from, to, unused, bal, e.err);
            ensure!(moved == big(want), "e20:refund", "resolving a transfer of {} {} from {} to {} (unused {}, still there {}) gave {} back", n, id, from, to, unused, bal, moved);
        }
        if e.ok && reg {
            let r = e.ret.as_ref().and_then(|b| serde_json::from_slice::<Value>(b).ok()).map(|x| u(&x));
            ensure!(r.map(big) == Some(moved.clone()), "e20:report", "a transfer of {} {} from {} to {} reports {:?} refunded, {} was (unused {}, still there {})", n, id, from, to, r, moved, unused, bal);
        }
    }
    Ok(())
}

pub fn e20(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    let th = cx.thorough;
    v.push(mk(cx, "shares of a pool with a long number", move |cx| {
        let mut s = pledge_setup(cx);
        for _ in 0..10 {
            s.simple_pool(T2, T1, 30);
        }
        s.must(ALICE, EX, "mft_register", json!({"token_id": ":10", "account_id": ALICE}), NEAR / 10);
        s.must(CAROL, EX, "mft_register", json!({"token_id": ":10", "account_id": CAROL}), NEAR / 10);
        s.add_liq(BOB, 10, &[100_000, 300_000]);
        s.add_liq(ALICE, 10, &[100_000, 300_000]);
        s.add_liq(CAROL, 10, &[1_000, 3_000]);
        s.env.menus.insert(CAROL.into(), vec![("mft_on_transfer", vec![Reply::Amount(1, 0), Reply::Amount(2, 0), Reply::Fail])]);
        let all = shares(&s.env.view(&s.w, EX), 10, ALICE);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.interleave = true;
        sc.max_pending = 4;
        sc.ops = vec![
            tx(ALICE, EX, "mft_transfer_call", json!({"token_id": ":10", "receiver_id": CAROL, "amount": (all / 2 + 1).to_string(), "msg": "x"}), 1),
            tx(ALICE, EX, "mft_transfer_all_call", json!({"token_id": ":10", "receiver_id": CAROL, "msg": ""}), 1),
            tx(BOB, EX, "mft_transfer_call", json!({"token_id": ":0", "receiver_id": CAROL, "amount": "1001", "msg": ""}), 1),
            tx(CAROL, EX, "mft_transfer", json!({"token_id": ":10", "receiver_id": BOB, "amount": (all / 4).to_string()}), 1),
            tx(CAROL, EX, "shadow_action", json!({"action": "ToFarming", "pool_id": 10, "msg": "", "amount": (all / 4).to_string()}), NEAR / 100),
            tx(ALICE, EX, "mft_unregister", json!({ "token_id": ":10" }), 1),
        ];
        sc.depth = if th { 8 } else { 7 };
        sc.step = Box::new(resolve_step);
        sc.inv = Box::new(|env, w| {
            let v = env.view(w, EX);
            for id in [0, 1, 10] {
                let held: u128 = ACCS.iter().map(|a| shares(&v, id, a)).sum();
                ensure!(held == pool(&v, id).supply, "e20:created", "the holders of pool {} have {} shares, the supply is {}", id, held, pool(&v, id).supply);
            }
            Ok(())
        });
        sc
    }));
    for (name, tok) in [("shares", ":0"), ("inner balances", T1)] {
        v.push(mk(cx, name, move |cx| {
            let mut s = pledge_setup(cx);
            let menu = vec![
                Reply::Ok("\"0\"".into()),
                Reply::Amount(1, 0),
                Reply::Amount(2, 1_000),
                Reply::Amount(2, 0),
                Reply::Ok("7".into()),
                Reply::Ok("\"340282366920938463463374607431768211456\"".into()),
                Reply::Ok("".into()),
                Reply::Fail,
            ];
            s.env.menus.insert(CAROL.into(), vec![("mft_on_transfer", menu)]);
            let all = if tok == ":0" { shares(&s.env.view(&s.w, EX), 0, ALICE) } else {
                // carol starts without any
                let d = dep(&s.env, &s.w, CAROL, T1);
                s.one(CAROL, "withdraw", json!({"token_id": T1, "amount": d.to_string()}));
                dep(&s.env, &s.w, ALICE, T1)
            };
            let mut sc = Scenario::new("", s.env, s.w);
            sc.interleave = true;
            sc.max_pending = 4;
            sc.ops = vec![
                tx(ALICE, EX, "mft_transfer_call", json!({"token_id": tok, "receiver_id": CAROL, "amount": (all / 2 + 1).to_string(), "msg": "x"}), 1),
                tx(ALICE, EX, "mft_transfer_call", json!({"token_id": tok, "receiver_id": CAROL, "amount": all.to_string(), "msg": ""}), 1),
                tx(BOB, EX, "mft_transfer_call", json!({"token_id": tok, "receiver_id": CAROL, "amount": "1001", "msg": ""}), 1),
                tx(CAROL, EX, "mft_transfer", json!({"token_id": tok, "receiver_id": BOB, "amount": (all / 4).to_string()}), 1),
                op("carol passes everything on to bob", move |x| {
                    let b = u(&x.view(EX).get("mft_balance_of", json!({"token_id": tok, "account_id": CAROL})));
                    x.call(CAROL, EX, "mft_transfer", json!({"token_id": tok, "receiver_id": BOB, "amount": b.to_string()}), 1);
                    Ok(())
                }),
            ];
            if tok == ":0" {
                sc.ops.push(tx(ALICE, EX, "mft_transfer_all_call", json!({"token_id": tok, "receiver_id": CAROL, "msg": ""}), 1));
                sc.ops.push(tx(ALICE, EX, "mft_transfer_call", json!({"token_id": tok, "receiver_id": EX, "amount": (all / 3).to_string(), "msg": ""}), 1));
                sc.ops.push(shadow_op(CAROL, "ToFarming", Some(all / 4), NEAR / 100));
                sc.ops.push(tx(CAROL, EX, "remove_liquidity", json!({"pool_id": 0, "shares": (all / 5).to_string(), "min_amounts": ["0", "0"]}), 1));
                sc.ops.push(tx(ALICE, EX, "mft_unregister", json!({ "token_id": ":0" }), 1));
                sc.ops.push(op("alice closes the account", |x| {
                    for t in [T1, T2] {
                        x.call(ALICE, EX, "withdraw", json!({"token_id": t, "amount": "0", "unregister": true}), 1);
                    }
                    // the transfers go through
                    x.w.pending.retain(|r| r.pred != EX || (r.recv != T1 && r.recv != T2 && r.method() != "exchange_callback_post_withdraw"));
                    x.call(ALICE, EX, "storage_unregister", json!({}), 1);
                    Ok(())
                }));
            } else {
                sc.ops.push(tx(CAROL, EX, "donation_token", json!({ "token_id": T1 }), 1));
                sc.ops.push(tx(CAROL, EX, "swap", json!({"actions": [act(0, T1, T2, Some(all / 3), 0)]}), 1));
                sc.ops.push(tx(ALICE, EX, "unregister_tokens", json!({ "token_ids": [T1] }), 1));
            }
            sc.depth = if th { 8 } else { 6 };
            sc.step = Box::new(resolve_step);
            if tok == ":0" {
                sc.inv = Box::new(|env, w| supply_inv(&env.view(w, EX), ACCS, 1));
            } else {
                sc.inv = Box::new(|env, w| {
                    let v = env.view(w, EX);
                    let s: BigInt = ACCS.iter().map(|a| big(deposit_v(&v, a, T1))).sum::<BigInt>() + pool(&v, 0).amounts[0];
                    ensure!(s == big(w.bal(T1, EX)), "e20:created", "inner balances and reserves of {} add up to {}, the exchange holds {}", T1, s, w.bal(T1, EX));
                    Ok(())
                });
            }
            sc
        }));
    }
    v
}

fn liq(name: &str, caller: &'static str, liquidator: &'static str, pool: u64, amount: u128, min: [u128; 2]) -> Op {
    op(name, move |x| {
        let a = json!({"liquidator_account_id": liquidator, "liquidation_account_id": ALICE, "shadow_id": format!("shadow_ref_v1-{}", pool),
            "liquidate_share_amount": amount.to_string(), "min_token_amounts": strs(&min)});
        let honest = ledger(&x.w, BURROW, ALICE, pool) >= big(amount);
        if caller == BURROW && !honest && !x.eager {
            // an honest lending market only liquidates what is pledged to it
            return x.skip();
        }
        let o = x.call(caller, EX, "on_burrow_liquidation", a, 0);
        if o.ok && honest {
            x.w.gadd(&format!("led.{}.{}.shadow_ref_v1-{}", BURROW, ALICE, pool), -big(amount));
        }
        Ok(())
    })
}

/// Judges one liquidation with all its receipts.
fn liq_step(env: &Env, pre: &World, post: &World, log: &[Exec]) -> R {
    let e = match log.first() {
        Some(e) if e.method == "on_burrow_liquidation" => e,
        _ => return Ok(()),
    };
    let (v, p) = (env.view(pre, EX), env.view(post, EX));
    let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
    let id: u64 = a["shadow_id"].as_str().unwrap().rsplit('-').next().unwrap().parse().unwrap();
    let n = u(&a["liquidate_share_amount"]);
    let min = us(&a["min_token_amounts"]);
    let to = a["liquidator_account_id"].as_str().unwrap();
    let (f, b) = rec(&v, ALICE, id);
    let bal = shares(&v, id, ALICE);
    let (pl, pl2) = (pool(&v, id), pool(&p, id));
    let out: Vec<u128> = pl.amounts.iter().map(|r| small_u128(&(big(*r) * n / big(pl.supply)))).collect();
    let may = e.pred == BURROW && n <= b && n > 0 && out.iter().zip(min.iter()).all(|(o, m)| o >= m) && registered(&v, to);
    ensure!(e.ok == may, "e23:accept", "liquidating {} shares (pledged {:?}) by {} for {}: {} {}", n, (f, b), e.pred, to, if e.ok { "accepted" } else { "refused" }, e.err);
    let k = if e.ok { n } else { 0 };
    ensure!(shares(&p, id, ALICE) == bal - k && pl2.supply == pl.supply - k, "e23:shares", "liquidating {} of {} shares left {} and a supply of {} (was {})", n, bal, shares(&p, id, ALICE), pl2.supply, pl.supply);
    let (f2, b2) = rec(&p, ALICE, id);
    let want = if e.ok { (f.min(bal - n), b - n) } else { (f, b) };
    ensure!((f2, b2) == want, "e23:pledges", "liquidating {} of {} shares turned pledges (farming, lending) {:?} into {:?}, not {:?}", n, bal, (f, b), (f2, b2), want);
    let rm: Vec<u128> = log.iter().filter(|x| x.recv == BOOST && x.method == "on_remove_shadow").map(|x| u(&serde_json::from_str::<Value>(&x.args).unwrap()["amount"])).collect();
    let told: u128 = rm.iter().sum();
    ensure!(told == f - f2 && (told > 0 || rm.is_empty()), "e23:farm", "the farm pledge shrank by {} but the farm was told {:?}", f - f2, rm);
    for (i, t) in pl.tokens.iter().enumerate() {
        let o = if e.ok { out[i] } else { 0 };
        ensure!(pl2.amounts[i] == pl.amounts[i] - o, "e23:reserve", "liquidating {} of {} shares took {} of {} {}", n, pl.supply, pl.amounts[i] as i128 - pl2.amounts[i] as i128, pl.amounts[i], t);
        for w in ACCS {
            let d = big(deposit_v(&p, w, t)) - deposit_v(&v, w, t);
            let x = if *w == to { big(o) } else { big(0) };
            ensure!(d == x, "e23:paid", "liquidating {} shares for {}: {} received {} {}, not {}", n, to, w, d, t, x);
        }
    }
    Ok(())
}

pub fn e23(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    let th = cx.thorough;
    v.push(mk(cx, "liquidations", move |cx| {
        let mut s = pledge_setup(cx);
        for a in [OWNER, ALICE, CAROL] {
            s.deposit(a, T3, 1_000_000 * E18);
            s.deposit(a, T1, 1_000_000 * E18);
        }
        // ten pools nobody uses, so that the numbers have one and two digits
        for _ in 0..10 {
            s.simple_pool(T1, T3, 30);
        }
        s.stable_pool(&[T1, T3], &[18, 18], 30, 100);
        s.add_stable(OWNER, 11, &[1_000 * E18, 1_100 * E18 + 7]);
        s.add_stable(ALICE, 11, &[100 * E18, 30 * E18]);
        let vw = s.env.view(&s.w, EX);
        let all = [shares(&vw, 0, ALICE), shares(&vw, 11, ALICE)];
        let mut sc = Scenario::new("", s.env, s.w);
        let pl = |action: &'static str, pool: u64, amount: Option<u128>| {
            let mut a = json!({"action": action, "pool_id": pool, "msg": ""});
            if let Some(n) = amount {
                a["amount"] = json!(n.to_string());
            }
            tx(ALICE, EX, "shadow_action", a, NEAR / 100)
        };
        for (p, a) in [(0u64, all[0]), (11, all[1])] {
            sc.ops.push(pl("ToFarming", p, None));
            sc.ops.push(pl("ToFarming", p, Some(a / 3)));
            sc.ops.push(pl("ToBurrowland", p, None));
            sc.ops.push(pl("ToBurrowland", p, Some(a / 2)));
            sc.ops.push(liq(&format!("liquidate half of pool {}", p), BURROW, CAROL, p, a / 2, [0, 0]));
            sc.ops.push(liq(&format!("liquidate all of pool {}", p), BURROW, CAROL, p, a, [1, 1]));
        }
        sc.ops.push(liq("liquidate all of pool 0 for too high a minimum of the second token", BURROW, CAROL, 0, all[0], [0, 1 << 100]));
        sc.ops.push(liq("liquidate all of pool 11 for too high a minimum of the first token", BURROW, CAROL, 11, all[1], [1 << 100, 0]));
        sc.ops.push(liq("liquidate one share", BURROW, CAROL, 0, 1, [0, 0]));
        sc.ops.push(liq("liquidate some for the owner of the shares", BURROW, ALICE, 0, all[0] / 5, [0, 0]));
        sc.ops.push(liq("liquidate for too high a minimum", BURROW, CAROL, 0, all[0] / 10, [1, 30_001]));
        sc.ops.push(liq("liquidate for the exact minimum", BURROW, CAROL, 0, all[0] / 10, [9_999, 29_999]));
        sc.ops.push(liq("carol tries to liquidate", CAROL, CAROL, 0, all[0] / 10, [0, 0]));
        sc.ops.push(liq("liquidate for a stranger", BURROW, REF, 0, all[0] / 10, [0, 0]));
        sc.ops.push(tx(BOB, EX, "swap", json!({"actions": [act(0, T1, T2, Some(7_777), 0)]}), 1));
        sc.ops.push(tx(ALICE, EX, "mft_transfer", json!({"token_id": ":0", "receiver_id": BOB, "amount": (all[0] / 6).to_string()}), 1));
        sc.depth = if th { 6 } else { 5 };
        let s0 = near_slack(&sc.env, &sc.init);
        sc.inv = Box::new(move |env, w| {
            let v = env.view(w, EX);
            for id in [0, 11] {
                let (f, b) = rec(&v, ALICE, id);
                ensure!(f.max(b) <= shares(&v, id, ALICE), "e23:backed", "pool {}: pledges {:?} exceed the {} shares held", id, (f, b), shares(&v, id, ALICE));
                ensure!(big(b) == ledger(w, BURROW, ALICE, id), "e23:ledger", "pool {}: {} recorded as lending, the lending market has {}", id, b, ledger(w, BURROW, ALICE, id));
            }
            let s = near_slack(env, w);
            ensure!(s >= s0, "e23:near", "the exchange is {} yoctoNEAR short of what it keeps for storage", s0.clone() - s);
            supply_inv(&v, ACCS, 1)
        });
        sc.step = Box::new(liq_step);
        sc
    }));
    v.push(mk(cx, "liquidations meet requests in flight", move |cx| {
        let mut s = pledge_setup(cx);
        s.must(ALICE, EX, "shadow_action", json!({"action": "ToFarming", "pool_id": 0, "amount": (shares(&s.env.view(&s.w, EX), 0, ALICE) / 4 * 3).to_string(), "msg": ""}), NEAR / 100);
        s.must(ALICE, EX, "shadow_action", json!({"action": "ToBurrowland", "pool_id": 0, "msg": ""}), NEAR / 100);
        let all = shares(&s.env.view(&s.w, EX), 0, ALICE);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.interleave = true;
        sc.max_pending = 4;
        sc.ops = vec![
            shadow_op(ALICE, "ToFarming", None, NEAR / 100),
            shadow_op(ALICE, "ToBurrowland", None, NEAR / 100),
            shadow_op(ALICE, "FromFarming", Some(all / 2), 1),
            shadow_op(ALICE, "FromFarming", None, 1),
            shadow_op(ALICE, "FromBurrowland", Some(all / 4), 1),
            liq("liquidate 2/3", BURROW, CAROL, 0, all / 3 * 2, [0, 0]),
        ];
        sc.depth = if th { 11 } else { 9 };
        sc.inv = Box::new(|env, w| {
            let v = env.view(w, EX);
            let bal = shares(&v, 0, ALICE);
            let (f, b) = rec(&v, ALICE, 0);
            ensure!(f.max(b) <= bal, "e23:backed", "{} shares held but {} are farming and {} lending", bal, f, b);
            ensure!(big(b) >= ledger(w, BURROW, ALICE, 0), "e23:released", "the lending market has {} of the shares, the exchange keeps only {} back", ledger(w, BURROW, ALICE, 0), b);
            if w.quiet() {
                for (what, actor, r) in [("farming", BOOST, f), ("lending", BURROW, b)] {
                    let l = ledger(w, actor, ALICE, 0);
                    ensure!(big(r) <= l, "e23:stuck", "{}: nothing is in flight, only {} of the shares are pledged but the exchange keeps {} back for good", what, l, r);
                }
            }
            supply_inv(&v, ACCS, 1)
        });
        sc.step = Box::new(|env, pre, _, log| {
            for e in log {
                if e.method == "callback_on_shadow" && !e.ok {
                    let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
                    let (f, b) = rec(&env.view(pre, EX), ALICE, 0);
                    let act = a["action"].as_str().unwrap();
                    let left = if act.ends_with("Farming") { f } else { b };
                    // did a liquidation take the shares of a request in flight?
                    let what = if left < u(&a["amount"]) { "overlap" } else { "callback" };
                    crate::fail!(format!("e23:{}:{}", what, act), "the answer to {} of {} could not be recorded (pledges are {:?} now): {}", act, a["amount"], (f, b), e.err);
                }
            }
            Ok(())
        });
        sc
    }));
    v
}
