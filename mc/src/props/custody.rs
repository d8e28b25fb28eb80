//! E01 custody, E02 failed withdrawals, E03 share supply: the broad mix of operations.
use super::*;
use crate::chain::*;
use crate::exh::*;
use crate::explore::*;
use crate::ops::*;
use crate::rates::*;
use crate::vm::*;
use crate::Ctx;
use crate::{ensure, fail};
use num_bigint::BigInt;
use serde_json::json;

pub const ACCS: &[&str] = &[OWNER, EX, ALICE, BOB, CAROL, REF, GUARD, BOOST, BURROW];
pub const TOKS: &[&str] = &[T1, T2, T3, WNEAR];

/// Two simple pools, a three-token stable pool; alice and bob provide liquidity.
pub fn mix(cx: &Ctx) -> Sb {
    let mut s = exchange(&cx.ex, 1600, 400);
    for a in [OWNER, ALICE, BOB, CAROL] {
        s.storage(a, NEAR / 10);
    }
    s.one(OWNER, "insert_referral", json!({"referral_id": REF, "fee_bps": 2500}));
    for t in TOKS {
        s.deposit(ALICE, t, 3_000_000 * E18 + 7);
    }
    for t in [T1, T2, T3] {
        s.deposit(BOB, t, 40_000 * E18 + 3);
    }
    for t in TOKS {
        s.mint(t, ALICE, 5_000 * E18);
        s.mint(t, BOB, 5_000 * E18);
        s.mint(t, CAROL, 5_000 * E18);
    }
    s.simple_pool(T1, T2, 30);
    s.simple_pool(T2, WNEAR, 100);
    s.stable_pool(&[T1, T2, T3], &[18, 18, 18], 25, 240);
    s.add_liq(ALICE, 0, &[100_000 * E18 + 1, 300_000 * E18 + 2]);
    s.add_liq(ALICE, 1, &[200_000 * E18, 100_000 * E18 + 9]);
    s.add_stable(ALICE, 2, &[100_000 * E18, 110_000 * E18, 120_000 * E18 + 5]);
    s.add_liq(BOB, 0, &[1_000 * E18, 3_100 * E18]);
    s.must(REF, EX, "mft_register", json!({"token_id": ":0", "account_id": REF}), NEAR / 10);
    s.must(REF, EX, "mft_register", json!({"token_id": ":2", "account_id": REF}), NEAR / 10);
    s
}

pub fn tokens_may_fail(s: &mut Sb) {
    for t in [T1, T2, T3] {
        s.env.actors.insert(t.into(), Actor::Token { fail: true });
    }
    s.env.actors.insert(WNEAR.into(), Actor::Wnear { fail: true });
}

pub fn swap_ops() -> Vec<Op> {
    vec![
        tx(ALICE, EX, "swap", json!({"actions": [act(0, T1, T2, Some(777 * E18 + 1), 1)]}), 1),
        tx(BOB, EX, "swap", json!({"actions": [act(0, T2, T1, Some(12_345), 0), act(2, T1, T3, None, 0)], "referral_id": REF}), 0),
        tx(BOB, EX, "swap", json!({"actions": [act(0, T2, T1, Some(1_234 * E18 + 5), 0), act(2, T1, T3, None, 0)], "referral_id": REF}), 0),
        tx(ALICE, EX, "swap_by_output", json!({"actions": [act_out(1, T2, WNEAR, Some(999 * E18 + 7), None), act_out(0, T1, T2, None, Some(u128::MAX / 4))]}), 1),
        tx(ALICE, EX, "swap_by_output", json!({"actions": [act_out(0, T2, T1, Some(3), Some(1000)), act_out(1, WNEAR, T2, Some(50 * E18), None)], "referral_id": REF}), 1),
        tx(BOB, EX, "execute_actions_in_va", json!({"use_tokens": {T1: "400000000000000000001", T2: "5"}, "actions": [act(2, T1, T2, Some(400 * E18), 0), act(0, T2, T1, None, 0)]}), 1),
        tx(ALICE, EX, "swap", json!({"actions": [act(2, T3, T1, Some(9 * E18 + 8), 0), act(2, T1, T2, Some(1), 0)]}), 1),
    ]
}
pub fn liq_ops() -> Vec<Op> {
    vec![
        tx(BOB, EX, "add_liquidity", json!({"pool_id": 0, "amounts": strs(&[500 * E18, 1_500 * E18 + 77])}), NEAR / 100),
        tx(BOB, EX, "remove_liquidity", json!({"pool_id": 0, "shares": "4000000000000000000001", "min_amounts": ["0", "0"]}), 1),
        tx(BOB, EX, "add_stable_liquidity", json!({"pool_id": 2, "amounts": strs(&[700 * E18, 0, 31 * E18 + 9]), "min_shares": "1"}), NEAR / 100),
        tx(ALICE, EX, "remove_liquidity_by_tokens", json!({"pool_id": 2, "amounts": strs(&[0, 100 * E18 + 1, 3]), "max_burn_shares": strs(&[u128::MAX / 4])[0]}), 1),
        tx(ALICE, EX, "remove_liquidity", json!({"pool_id": 2, "shares": strs(&[5_000 * E18 + 13])[0], "min_amounts": ["0", "0", "0"]}), 1),
        op("bob removes all of pool 0", |x| {
            let v = x.view(EX);
            let s = shares(&v, 0, BOB);
            x.call(BOB, EX, "remove_liquidity", json!({"pool_id": 0, "shares": s.to_string(), "min_amounts": ["0", "0"]}), 1);
            Ok(())
        }),
    ]
}
pub fn xfer_ops() -> Vec<Op> {
    let ex1 = json!({"actions": [act(0, T1, T2, None, 0)], "skip_unwrap_near": true});
    let ex2 = json!({"actions": [act(1, T2, WNEAR, None, 0)], "skip_unwrap_near": false});
    let ex3 = json!({"actions": [act(2, T1, T3, Some(100 * E18), 0), act(0, T1, T2, Some(1), 0)], "swap_out_recipient": BOB, "referral_id": REF});
    let ex4 = json!({"actions": [act(0, T1, T2, None, u128::MAX)]});
    let zap = json!({"referral_id": null, "hot_zap_actions": [act(0, T1, T2, Some(60 * E18), 0)],
        "add_liquidity_infos": [{"pool_id": 0, "amounts": strs(&[40 * E18, 119 * E18]), "min_amounts": ["0", "0"]}], "skip_degen_price_sync": null});
    let zap2 = json!({"referral_id": REF, "hot_zap_actions": [act(2, T1, T3, Some(60 * E18), 0)],
        "add_liquidity_infos": [{"pool_id": 2, "amounts": strs(&[10 * E18, 0, 50 * E18]), "min_shares": "0"}], "skip_degen_price_sync": null});
    vec![
        deposit_op(ALICE, T1, 17 * E18 + 1),
        deposit_op(CAROL, T2, 5_000 * E18),
        withdraw_op(ALICE, T1, 11, false, false),
        withdraw_op(BOB, T3, 0, true, false),
        withdraw_op(BOB, T3, 5, true, false),
        withdraw_op(ALICE, WNEAR, 100 * E18, false, true),
        ft_call("alice instant swap t1>t2", ALICE, T1, 100 * E18, ex1),
        ft_call("carol instant swap t2>near", CAROL, T2, 100 * E18, ex2),
        ft_call("carol instant swap t1>t3+t2 to bob", CAROL, T1, 100 * E18 + 1, ex3),
        ft_call("carol instant swap too high min", CAROL, T1, 100 * E18, ex4),
        ft_call("alice hot zap simple", ALICE, T1, 100 * E18 + 3, zap),
        ft_call("bob hot zap stable", BOB, T1, 100 * E18 + 5, zap2),
        tx(ALICE, EX, "mft_transfer", json!({"token_id": ":0", "receiver_id": BOB, "amount": "1000000000000000000007"}), 1),
        tx(ALICE, EX, "mft_transfer", json!({"token_id": T2, "receiver_id": CAROL, "amount": "1234567"}), 1),
        tx(BOB, EX, "donation_token", json!({"token_id": T2, "amount": "3333"}), 1),
        tx(BOB, EX, "donation_share", json!({"pool_id": 0, "unregister": true}), 1),
        op("owner takes all fee shares of pool 0", |x| {
            let v = x.view(EX);
            let s = shares(&v, 0, EX);
            x.call(OWNER, EX, "remove_exchange_fee_liquidity", json!({"pool_id": 0, "shares": s.to_string(), "min_amounts": ["0", "0"]}), 1);
            Ok(())
        }),
        op("guardian takes half of fee shares of pool 2", |x| {
            let v = x.view(EX);
            let s = shares(&v, 2, EX) / 2;
            x.call(GUARD, EX, "remove_exchange_fee_liquidity", json!({"pool_id": 2, "shares": s.to_string(), "min_amounts": ["0", "0", "0"]}), 1);
            Ok(())
        }),
        op("owner withdraws own t2", |x| {
            let v = x.view(EX);
            let s = deposit_v(&v, OWNER, T2);
            x.call(OWNER, EX, "withdraw_owner_token", json!({"token_id": T2, "amount": s.max(1).to_string()}), 1);
            Ok(())
        }),
        op("bob leaves: withdraws all and unregisters", |x| {
            for t in [T1, T2, T3] {
                x.call(BOB, EX, "withdraw", json!({"token_id": t, "amount": "0", "unregister": true}), 1);
                x.call(BOB, EX, "unregister_tokens", json!({"token_ids": [t]}), 1);
            }
            x.call(BOB, EX, "storage_unregister", json!({}), 1);
            Ok(())
        }),
        tx(BOB, EX, "claim_lostfound", json!({ "token_id": T2 }), 1),
        tx(BOB, EX, "claim_lostfound", json!({ "token_id": T3 }), 1),
    ]
}

/// Every token: what the contract holds equals what its books owe.
pub fn e01(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    let th = cx.thorough;
    v.push(mk(cx, "mix", move |cx| {
        let mut s = mix(cx);
        tokens_may_fail(&mut s);
        let mut sc = Scenario::new("mix", s.env, s.w);
        sc.ops.extend(swap_ops());
        sc.ops.extend(liq_ops());
        sc.ops.extend(xfer_ops());
        sc.depth = if th { 4 } else { 3 };
        sc.inv = Box::new(|env, w| custody_inv(w, &env.view(w, EX), ACCS, TOKS));
        sc
    }));
    v.push(mk(cx, "quoted and mixed-decimals pools", move |cx| {
        let s = family(cx);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops.extend(family_swaps());
        sc.ops.extend(family_liq());
        sc.depth = if th { 5 } else { 4 };
        let start: std::collections::BTreeMap<String, BigInt> =
            custody_gap(&sc.init, &sc.env.view(&sc.init, EX), ACCS, FTOKS).into_iter().map(|(t, g, _)| (t, g)).collect();
        let depth = sc.depth as u64;
        sc.inv = Box::new(move |env, w| {
            for (t, gap, msg) in custody_gap(w, &env.view(w, EX), ACCS, FTOKS) {
                // amounts are kept at a common precision: what does not divide stays in the pool
                let unit = if t == D24 { 1_000_000u64 } else { 1 };
                ensure!(gap >= big(0), "custody:short", "{} (more owed than held)", msg);
                ensure!(gap <= start[&t].clone() + BigInt::from(8 * depth * unit), "custody:dust", "{} (more than rounding)", msg);
            }
            Ok(())
        });
        sc
    }));
    v.push(mk(cx, "accounts without room", move |cx| {
        let mut sc = crate::props::storage::s_accounts(cx);
        sc.ops.push(tx(BOB, EX, "mft_transfer", json!({"token_id": T1, "receiver_id": OWNER, "amount": "7"}), 1));
        sc.depth = if th { 4 } else { 3 };
        sc.inv = Box::new(|env, w| custody_inv(w, &env.view(w, EX), crate::props::storage::WHO, TOKS));
        sc
    }));
    v.push(mk(cx, "receipts of two users interleaved", move |cx| {
        let mut s = small(cx);
        s.one(OWNER, "extend_secure_sender_whitelist", json!({"sender_ids": [CAROL]}));
        s.env.actors.insert(CAROL.into(), Actor::Menu(vec![("ft_on_transfer", vec![Reply::Amount(0, 0), Reply::Amount(1, 0), Reply::Fail])]));
        let mut sc = Scenario::new("", s.env, s.w);
        sc.interleave = true;
        sc.max_pending = 4;
        sc.ops = vec![
            withdraw_op(ALICE, T1, 0, true, false),
            withdraw_op(ALICE, WNEAR, 200, false, true),
            tx(ALICE, EX, "unregister_tokens", json!({ "token_ids": [T1] }), 1),
            tx(ALICE, EX, "storage_withdraw", json!({}), 1),
            deposit_op(ALICE, T1, 77),
            tx(BOB, EX, "swap", json!({"actions": [act(0, T1, T2, Some(100), 0)]}), 1),
            withdraw_op(BOB, T1, 0, false, false),
            ft_call("carol instant swap t1>t2", CAROL, T1, 1000, json!({"actions": [act(0, T1, T2, None, 0)]})),
            ft_call("carol instant swap t1>t2 with echo", CAROL, T1, 900, json!({"actions": [act(0, T1, T2, None, 0)], "client_echo": "x"})),
            ft_call("bob instant swap, refused", BOB, T1, 999, json!({"actions": [act(1, T1, WNEAR, None, 1_000_000)]})),
            ft_call("carol deposits without an account", CAROL, T1, 5, json!("")),
        ];
        sc.depth = if th { 9 } else { 7 };
        sc.inv = Box::new(|env, w| custody_inv(w, &env.view(w, EX), ACCS, TOKS));
        sc
    }));
    v
}

/// A small exchange for interleavings: one pool (owner's liquidity), alice and bob hold a few
/// tokens inside, carol has no account.
fn small(cx: &Ctx) -> Sb {
    small_with(cx, true)
}
/// `owner_in`: the owner has an inner account.
fn small_with(cx: &Ctx, owner_in: bool) -> Sb {
    let mut s = exchange(&cx.ex, 1600, 400);
    s.storage(OWNER, NEAR / 10);
    for t in TOKS {
        s.deposit(OWNER, t, 1_000_000);
    }
    s.simple_pool(T1, T2, 30);
    s.simple_pool(T1, WNEAR, 30);
    s.add_liq(OWNER, 0, &[100_000, 300_000]);
    s.add_liq(OWNER, 1, &[100_000, 300_000]);
    // room for exactly two tokens
    for a in [ALICE, BOB] {
        s.storage(a, (102 + 2 * 148) * BYTE);
        s.deposit(a, T1, 1_000);
        s.deposit(a, WNEAR, 500);
        s.mint(T1, a, 10_000);
        s.mint(WNEAR, a, 10_000);
    }
    s.mint(T1, CAROL, 10_000);
    if !owner_in {
        for t in TOKS {
            if dep(&s.env, &s.w, OWNER, t) > 0 {
                s.one(OWNER, "withdraw", json!({"token_id": t, "amount": "0", "skip_unwrap_near": true}));
            }
            s.one(OWNER, "unregister_tokens", json!({"token_ids": [t]}));
        }
        s.one(OWNER, "storage_unregister", json!({}));
    }
    tokens_may_fail(&mut s);
    s
}
pub const BYTE: u128 = 10_000_000_000_000_000_000;

fn leave_ops() -> Vec<Op> {
    vec![
        withdraw_op(ALICE, T1, 300, false, false),
        withdraw_op(ALICE, T1, 250, true, false),
        withdraw_op(ALICE, T1, 0, true, false),
        withdraw_op(ALICE, WNEAR, 0, true, true),
        withdraw_op(ALICE, WNEAR, 200, false, false),
        tx(ALICE, EX, "unregister_tokens", json!({ "token_ids": [T1] }), 1),
        tx(ALICE, EX, "unregister_tokens", json!({ "token_ids": [WNEAR] }), 1),
        tx(ALICE, EX, "register_tokens", json!({ "token_ids": [T2, T3] }), 1),
        tx(ALICE, EX, "storage_withdraw", json!({}), 1),
        tx(ALICE, EX, "storage_unregister", json!({}), 1),
        tx(ALICE, EX, "storage_deposit", json!({}), 102 * BYTE),
        tx(ALICE, EX, "claim_lostfound", json!({ "token_id": T1 }), 1),
        tx(ALICE, EX, "claim_lostfound", json!({ "token_id": WNEAR }), 1),
    ]
}

/// Amounts of a token a user is owed by transfers that have not been answered for yet.
fn owed_in_flight(w: &World, who: &str, tok: &str) -> BigInt {
    let mut s = BigInt::from(0);
    for r in &w.pending {
        if r.recv != EX || r.pred != EX {
            continue;
        }
        if let Some(Action::Call { method, args, .. }) = r.actions.last() {
            let a: serde_json::Value = serde_json::from_slice(args).unwrap_or_default();
            let t = match &method[..] {
                "exchange_callback_post_withdraw" => a["token_id"].as_str().unwrap_or("").to_string(),
                "exchange_callback_post_withdraw_near" => WNEAR.to_string(),
                _ => continue,
            };
            let delivered = method == "exchange_callback_post_withdraw" && matches!(r.inputs.first().and_then(|d| w.data.get(d)), Some(PResult::Ok(_)));
            if t == tok && a["sender_id"] == who && !delivered {
                s += u(&a["amount"]);
            }
        }
    }
    s
}

/// What a user has of a token, wherever it is.
fn wealth(env: &Env, w: &World, who: &str, tok: &str) -> BigInt {
    let v = env.view(w, EX);
    big(w.bal(tok, who)) + deposit_v(&v, who, tok) + lostfound(&v, who, tok) + owed_in_flight(w, who, tok) + w.g(&format!("unwrapped.{}.{}", who, tok))
}

/// Judges the callback of an outgoing transfer: where the amount must be afterwards.
fn callback_step(rich: bool) -> impl Fn(&Env, &World, &World, &[Exec]) -> R {
    move |env, pre, post, log| {
        for e in log {
            if e.recv != EX || e.pred != EX || !e.method.starts_with("exchange_callback_post_withdraw") {
                continue;
            }
            let a: serde_json::Value = serde_json::from_str(&e.args).unwrap_or_default();
            let near = e.method.ends_with("_near");
            let tok = if near { WNEAR.to_string() } else { a["token_id"].as_str().unwrap().to_string() };
            let who = a["sender_id"].as_str().unwrap().to_string();
            let amt = big(u(&a["amount"]));
            ensure!(e.ok, "e02:callback", "the callback of {}'s transfer of {} {} failed: {}", who, amt, tok, e.err);
            let (v, p) = (env.view(pre, EX), env.view(post, EX));
            let ok = e.inputs == vec![true];
            let st = v.get("storage_balance_of", json!({ "account_id": who }));
            let reg = !st.is_null();
            let has = reg && deposits(&v, &who).contains_key(&tok);
            let room = has || (reg && u(&st["available"]) >= 148 * BYTE);
            for who2 in ACCS {
                for t in TOKS {
                    let dd = big(deposit_v(&p, who2, t)) - deposit_v(&v, who2, t);
                    let dl = big(lostfound(&p, who2, t)) - lostfound(&v, who2, t);
                    let mine = !ok && *t == tok;
                    let xd = if mine && ((*who2 == who && room) || (!room && !rich && *who2 == OWNER)) { amt.clone() } else { big(0) };
                    let xl = if mine && *who2 == who && !room && rich { amt.clone() } else { big(0) };
                    ensure!(dd == xd, "e02:inner", "after a {} transfer of {} {} to {} the inner balance of {} in {} changed by {}, not {}", if ok { "delivered" } else { "failed" }, amt, tok, who, who2, t, dd, xd);
                    ensure!(dl == xl, "e02:lostfound", "after a {} transfer of {} {} to {} the lost-and-found of {} in {} changed by {}, not {}", if ok { "delivered" } else { "failed" }, amt, tok, who, who2, t, dl, xl);
                }
            }
            if near {
                let paid = post.pending.iter().filter(|r| r.pred == EX && r.recv == who && r.actions.len() == 1 && matches!(r.actions[0], Action::Transfer { amount } if big(amount) == amt)).count()
                    - pre.pending.iter().filter(|r| r.pred == EX && r.recv == who && r.actions.len() == 1 && matches!(r.actions[0], Action::Transfer { amount } if big(amount) == amt)).count();
                ensure!(paid == ok as usize, "e02:unwrapped", "unwrapping {} for {} {}: {} transfers of NEAR went out", amt, who, if ok { "succeeded" } else { "failed" }, paid);
            }
        }
        Ok(())
    }
}

pub fn e02(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    let th = cx.thorough;
    for (name, rich, owner_in) in [("free NEAR", true, true), ("short of NEAR", false, true), ("short of NEAR, owner without account", false, false)] {
        v.push(mk(cx, name, move |cx| {
            let mut s = small_with(cx, owner_in);
            if !rich {
                // all but a little above what storage locks
                s.w.near.insert(EX.into(), 50 * NEAR as i128);
            }
            let mut sc = Scenario::new("", s.env, s.w);
            sc.interleave = true;
            sc.max_pending = 3;
            sc.ops = leave_ops();
            sc.ops.push(withdraw_op(BOB, T1, 0, true, false));
            sc.ops.push(ft_call("carol instant swap t1>t2", CAROL, T1, 1000, json!({"actions": [act(0, T1, T2, None, 0)]})));
            sc.ops.push(ft_call("carol instant swap t1>near for bob", CAROL, T1, 999, json!({"actions": [act(1, T1, WNEAR, None, 0)], "swap_out_recipient": BOB, "skip_unwrap_near": true})));
            sc.depth = if th { 9 } else if rich { 7 } else { 6 };
            let f = callback_step(rich);
            sc.step = Box::new(move |env, pre, post, log| {
                f(env, pre, post, log)?;
                for (who, toks) in [(ALICE, vec![T1, WNEAR]), (BOB, vec![T1])] {
                    for t in toks {
                        let (a, mut b) = (wealth(env, pre, who, t), wealth(env, post, who, t));
                        for e in log {
                            // the successful unwrap callback turns wrapped NEAR into NEAR on its way
                            if t == WNEAR && e.method == "exchange_callback_post_withdraw_near" && e.ok && e.inputs == vec![true] && e.args.contains(who) {
                                b += u(&serde_json::from_str::<serde_json::Value>(&e.args).unwrap()["amount"]);
                            }
                        }
                        if !rich {
                            // what cannot be returned is kept in the owner's inner account
                            for e in log {
                                if e.method.starts_with("exchange_callback") {
                                    let d = deposit_v(&env.view(post, EX), OWNER, t) - deposit_v(&env.view(pre, EX), OWNER, t);
                                    if e.args.contains(who) { b += d; }
                                }
                            }
                        }
                        ensure!(a == b, "e02:wealth", "{} had {} {} (wallet, inner balance, lost-and-found, in flight) and has {} now", who, a, t, b);
                    }
                }
                Ok(())
            });
            sc
        }));
    }
    v
}

pub fn e03(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    let th = cx.thorough;
    v.push(mk(cx, "mix", move |cx| {
        let s = mix(cx);
        let mut sc = Scenario::new("mix", s.env, s.w);
        sc.ops.extend(swap_ops());
        sc.ops.extend(liq_ops());
        sc.ops.extend(xfer_ops());
        sc.depth = 4;
        sc.inv = Box::new(|env, w| supply_inv(&env.view(w, EX), ACCS, 3));
        sc
    }));
    v.push(mk(cx, "quoted and mixed-decimals pools", move |cx| {
        let s = family(cx);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops.extend(family_swaps());
        sc.ops.extend(family_liq());
        sc.depth = 4;
        sc.inv = Box::new(|env, w| supply_inv(&env.view(w, EX), ACCS, 5));
        sc
    }));
    v
}
