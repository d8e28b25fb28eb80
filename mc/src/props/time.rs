//! E18 ramps of the amplification, E19 time-weighted averages.
use super::*;
use crate::chain::*;
use crate::ensure;
use crate::exh::*;
use crate::explore::*;
use crate::model::*;
use crate::ops::*;
use crate::props::curves::*;
use crate::props::liquidity::zaps;
use crate::rates::*;
use crate::vm::*;
use crate::Ctx;
use num_bigint::BigInt;
use num_traits::{Signed, Zero};
use serde_json::{json, Value};

// ---- E18

/// The amplification that the ramp recorded in the ghost prescribes now, times its denominator.
fn prescribed(w: &World) -> (BigInt, BigInt) {
    let now = BigInt::from(w.ts);
    let (a0, a1, t0, t1) = (w.g("a0"), w.g("a1"), w.g("t0"), w.g("t1"));
    if now >= t1 {
        return (a1, BigInt::from(1));
    }
    (&a0 * (&t1 - &t0) + (a1 - &a0) * (now - &t0), t1 - t0)
}
fn ramp_inv(env: &Env, w: &World) -> R {
    let a = big(pool(&env.view(w, EX), 0).amp);
    let (n, d) = prescribed(w);
    ensure!((&a * &d - &n).abs() < d, "e18:value", "the amplification is {} at {}, the ramp from {} at {} to {} at {} says {}/{}", a, w.ts, w.g("a0"), w.g("t0"), w.g("a1"), w.g("t1"), n, d);
    Ok(())
}
#[derive(Clone, Copy, Debug)]
enum To {
    Times(u128, i128),
    Part(u128, i128),
    Is(u128),
}
fn ramp(who: &'static str, to: To, dur: u64, y: u128) -> Op {
    op(format!("{} ramps to {:?} within {} h{}", short(who), to, dur as f64 / 3600e9, if y == 1 { "" } else { ", nothing attached" }), move |x| {
        let cur = pool(&x.view(EX), 0).amp;
        let f = match to {
            To::Times(n, o) => ((cur * n) as i128 + o) as u128,
            To::Part(n, o) => ((cur + n - 1) as i128 / n as i128 + o).max(0) as u128,
            To::Is(n) => n,
        };
        let end = x.w.ts + dur;
        let o = x.call(who, EX, "stable_swap_ramp_amp", json!({"pool_id": 0, "future_amp_factor": f as u64, "future_amp_time": end.to_string()}), y);
        let free = BigInt::from(x.w.ts) >= x.w.g("changed") + DAY;
        let step = if f >= cur { f <= cur * 10 } else { f * 10 >= cur };
        let may = (who == OWNER || who == GUARD) && y == 1 && free && dur >= DAY && step && f > 0 && f < 1_000_000;
        ensure!(o.ok == may, "e18:accept", "a ramp by {} from {} to {} in {} s, {} s after the last change, was {}: {}", who, cur, f, dur / SEC, (BigInt::from(x.w.ts) - x.w.g("changed")) / SEC, if o.ok { "accepted" } else { "refused" }, o.err);
        if o.ok {
            let ts = x.w.ts;
            for (k, n) in [("a0", cur), ("a1", f), ("t0", ts as u128), ("t1", end as u128), ("changed", ts as u128)] {
                x.w.gset(k, n);
            }
            let a = pool(&x.view(EX), 0).amp;
            ensure!(a == cur, "e18:jump", "starting a ramp changed the amplification from {} to {}", cur, a);
        }
        Ok(())
    })
}
fn stop(who: &'static str) -> Op {
    op(format!("{} stops the ramp", short(who)), move |x| {
        let cur = pool(&x.view(EX), 0).amp;
        let o = x.call(who, EX, "stable_swap_stop_ramp_amp", json!({ "pool_id": 0 }), 1);
        ensure!(o.ok == (who == OWNER || who == GUARD), "e18:stop", "{} stopping the ramp: {}", who, o.err);
        if o.ok {
            let ts = x.w.ts;
            for (k, n) in [("a0", cur), ("a1", cur), ("t0", ts as u128), ("t1", ts as u128), ("changed", ts as u128)] {
                x.w.gset(k, n);
            }
        }
        Ok(())
    })
}
/// Time passes; quotes and prices are kept fresh.
fn later(d: u64) -> Op {
    op(format!("{} s pass", d as f64 / 1e9), move |x| {
        x.w.ts += d;
        for t in [ST, LI] {
            x.call(CAROL, EX, "update_token_rate", json!({ "token_id": t }), 0);
        }
        for t in [T1, USD] {
            x.call(CAROL, EX, "update_degen_token_price", json!({ "token_id": t }), 0);
        }
        Ok(())
    })
}
pub fn e18(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    let th = cx.thorough;
    for i in [0usize, 2, 3] {
        v.push(mk(cx, CURVES[i].name, move |cx| {
            let p = &CURVES[i];
            let mut s = curve_setup(cx, p, 1600, 400, true);
            for (k, n) in [("a0", p.amp), ("a1", p.amp), ("t0", 0), ("t1", 0), ("changed", 0)] {
                s.w.gset(k, n);
            }
            let mut sc = Scenario::new("", s.env, s.w);
            let o = &mut sc.ops;
            for to in [To::Times(10, 0), To::Times(10, 1), To::Part(10, 0), To::Part(10, -1), To::Is(77), To::Is(0), To::Is(1), To::Is(999_999), To::Is(1_000_000)] {
                o.push(ramp(OWNER, to, DAY, 1));
            }
            for d in [DAY - 1, 5 * DAY / 2 + 1] {
                for to in [To::Times(10, 0), To::Part(10, 0)] {
                    o.push(ramp(GUARD, to, d, 1));
                }
            }
            o.push(ramp(BOB, To::Is(77), 2 * DAY, 1));
            o.push(ramp(OWNER, To::Is(77), 2 * DAY, 0));
            o.push(stop(OWNER));
            o.push(stop(GUARD));
            o.push(stop(BOB));
            for d in [1, DAY / 2 - 1, DAY / 2, DAY - 1, 2 * DAY + 1_234_567] {
                o.push(later(d));
            }
            let mut uses = curve_swaps(p, &[(1, 3)]);
            uses.truncate(2);
            let l = curve_liq(p);
            uses.extend(l.into_iter().skip(2).take(2));
            o.extend(uses);
            sc.depth = if th { 5 } else { 4 };
            let j = curve_judge(Part::Curve);
            sc.step = Box::new(move |env, pre, post, log| if pre.ts == post.ts { j(env, pre, post, log) } else { Ok(()) });
            sc.inv = Box::new(ramp_inv);
            sc
        }));
    }
    v
}

// ---- E19

struct Info {
    last: u64,
    cum: Vec<BigInt>,
    recs: Vec<(u64, Vec<BigInt>)>,
}
fn bigs(v: &Value) -> Vec<BigInt> {
    v.as_array().map(|a| a.iter().map(bigv).collect()).unwrap_or_default()
}
fn info(v: &Viewer, id: u64) -> Option<Info> {
    let x = v.get("get_pool_twap_info_view", json!({ "pool_id": id }));
    if x.is_null() {
        return None;
    }
    Some(Info {
        last: x["last_update_sec"].as_u64().unwrap(),
        cum: bigs(&x["cumulative_token_amounts"]),
        recs: x["records"].as_array().unwrap().iter().map(|r| (r["time_sec"].as_u64().unwrap(), bigs(&r["cumulative_token_amounts"]))).collect(),
    })
}
/// What a unit of shares is worth, computed from the reserves.
fn unit(v: &Viewer, id: u64) -> Option<Vec<BigInt>> {
    let p = pool(v, id);
    let one = crate::curve::p10(if p.kind == "STABLE_SWAP" { 18 } else { 24 });
    let s = big(p.supply);
    if s <= one {
        return None;
    }
    Some(p.amounts.iter().map(|a| big(*a) * &one / &s).collect())
}
const MAXREC: usize = 60;

fn pend(w: &World, i: usize) -> BigInt {
    w.g(&format!("pend{}", i))
}
/// Runs an operation and accounts for what it did to the records.
fn watched(id: u64, o: Op) -> Op {
    let Op { label, f } = o;
    op(label, move |x| {
        let (a, t0) = (info(&x.view(EX), id), x.w.ts / SEC);
        let before = unit(&x.view(EX), id);
        f(x)?;
        if x.skipped {
            return Ok(());
        }
        let now = x.w.ts / SEC;
        let v = x.view(EX);
        let n = pool(&v, id).tokens.len();
        let b = match info(&v, id) {
            Some(b) => b,
            None => {
                for i in 0..n {
                    x.w.gset(&format!("pend{}", i), 0);
                    x.w.ghost.remove(&format!("pend{}", i));
                }
                return Ok(());
            }
        };
        if a.is_some() && t0 != now {
            // only time went by; nobody touched the pool
            let u = match before {
                Some(u) => u,
                None => return Ok(()),
            };
            for i in 0..n {
                x.w.gadd(&format!("pend{}", i), &u[i] * BigInt::from(now - t0));
            }
            return Ok(());
        }
        match a {
            None => {
                ensure!(b.last == now && b.recs.len() == 1 && b.recs[0] == (now, b.cum.clone()), "e19:start", "observation starts at {} with the last update at {} and records {:?}", now, b.last, b.recs);
            }
            Some(a) => {
                if b.last == a.last {
                    ensure!(b.cum == a.cum && b.recs == a.recs, "e19:still", "the sums changed without an update");
                    return Ok(());
                }
                ensure!(b.last == now, "e19:date", "an update at {} is dated {}", now, b.last);
                for i in 0..n {
                    let (got, want) = (&b.cum[i] - &a.cum[i], pend(&x.w, i));
                    // the worth of a unit is rounded down, and moves by rounding when shares are redeemed
                    let tol = BigInt::from(2 * (now - a.last));
                    ensure!((&got - &want).abs() <= tol, "e19:sum", "{}: over {} s the sum of token {} grew by {}, but what a unit of shares was worth adds up to {}", x.log.first().map(|e| format!("{}.{}({})", e.recv, e.method, e.args)).unwrap_or_default(), now - a.last, i, got, want);
                }
                let int = v.get("metadata", json!({}))["cumulative_info_record_interval_sec"].as_u64().unwrap();
                let mut want: Vec<(u64, Vec<BigInt>)> = a.recs.clone();
                if now - want.last().unwrap().0 >= int {
                    want.push((now, b.cum.clone()));
                    if want.len() > MAXREC {
                        want.remove(0);
                    }
                }
                ensure!(b.recs == want, "e19:records", "after an update at {} the records are of {:?}, expected of {:?}", now, b.recs.iter().map(|r| r.0).collect::<Vec<_>>(), want.iter().map(|r| r.0).collect::<Vec<_>>());
                for i in 0..n {
                    x.w.ghost.remove(&format!("pend{}", i));
                }
            }
        }
        Ok(())
    })
}
/// What the average is reported to be.
fn twap_inv(id: u64) -> impl Fn(&Env, &World) -> R {
    move |env, w| {
        let v = env.view(w, EX);
        let now = w.ts / SEC;
        let p = pool(&v, id);
        let x = match info(&v, id) {
            Some(x) => x,
            None => return Ok(()),
        };
        let lent = v.get("get_unit_lpt_assets", json!({ "pool_ids": [id] }));
        let got = v.get("get_unit_share_twap_token_amounts", json!({ "pool_id": id }));
        let int = v.get("metadata", json!({}))["cumulative_info_record_interval_sec"].as_u64().unwrap();
        let mut times: Vec<(u64, Vec<BigInt>)> = x.recs.clone();
        let cum: Vec<BigInt> = x.cum.iter().enumerate().map(|(i, c)| c + pend(w, i)).collect();
        if now > x.last && now - times.last().unwrap().0 >= int {
            times.push((now, cum.clone()));
            if times.len() > MAXREC {
                times.remove(0);
            }
        }
        let full = times.len() == MAXREC && unit(&v, id).is_some();
        ensure!(full != got.is_null(), "e19:ready", "with {} records the average is {}", times.len(), got);
        let key = format!("shadow_ref_v1-{}", id);
        ensure!(full == !lent[&key].is_null(), "e19:lent", "with {} records the assets reported to the lending market are {}", times.len(), lent);
        if !full {
            return Ok(());
        }
        let (t0, c0) = &times[0];
        let g = bigs(&got);
        for i in 0..p.tokens.len() {
            let want = (&cum[i] - &c0[i]) / BigInt::from(now.max(x.last) - t0);
            ensure!((&g[i] - &want).abs() <= BigInt::from(3), "e19:average", "token {}: the average since {} is {} and is reported as {}", i, t0, want, g[i]);
            let l = &lent[&key]["tokens"][i];
            ensure!(l["token_id"] == json!(p.tokens[i]) && bigv(&l["amount"]) == g[i] && u(&lent[&key]["timestamp"]) == w.ts as u128, "e19:lent", "the average {} of {} is reported to the lending market as {}", g[i], p.tokens[i], lent);
        }
        Ok(())
    }
}
fn observed(cx: &Ctx, id: u64, records: usize, int: u64) -> Sb {
    let mut s = family(cx);
    for t in [T1, T2] {
        s.mint(t, BOB, 5_000 * E18);
    }
    if id == 0 {
        s.add_liq(ALICE, 0, &[100_000 * E18 + 1, 300_000 * E18 + 2]);
        s.add_liq(BOB, 0, &[7_000 * E18 + 1, 22_000 * E18 + 2]);
    }
    s.one(OWNER, "modify_cumulative_info_record_interval_sec", json!({ "record_interval_sec": int }));
    s.one(GUARD, "register_pool_twap_record", json!({ "pool_id": id }));
    for i in 1..records as u64 {
        s.w.ts += (int + i % 7 + 1) * SEC;
        s.must(CAROL, EX, "sync_pool_twap_record", json!({ "pool_id": id }), 0);
        for t in [T1, USD] {
            s.must(CAROL, EX, "update_degen_token_price", json!({ "token_id": t }), 0);
        }
    }
    let v = s.env.view(&s.w, EX);
    assert!(unit(&v, id).is_some() && info(&v, id).unwrap().recs.len() == records, "SETUP_FAILED records");
    s
}
fn pass(d: u64) -> Op {
    op(format!("{} s pass", d), move |x| {
        x.w.ts += d * SEC;
        Ok(())
    })
}
pub fn e19(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    let th = cx.thorough;
    for (id, name) in [(0u64, "simple pool"), (3, "stable pool"), (1, "rated pool"), (2, "degen pool")] {
        for (records, int) in [(59usize, 5u64), (1, 30)] {
            v.push(mk(cx, &format!("{}, {} records", name, records), move |cx| {
                let s = observed(cx, id, records, int);
                let p = pool(&s.env.view(&s.w, EX), id);
                let mut sc = Scenario::new("", s.env, s.w);
                let mut ops = vec![];
                for d in [1, 5, 29, 1000] {
                    ops.push(pass(d));
                }
                ops.push(txn("anyone syncs", CAROL, EX, "sync_pool_twap_record", json!({ "pool_id": id }), 0));
                let me = format!("\"pool_id\":{}", id);
                let mut mine: Vec<Op> = family_swaps().into_iter().chain(family_liq()).filter(|o| o.label.contains(&me)).collect();
                mine.extend(zaps().into_iter().filter(|o| id == 0 && o.label.contains("one pool") || id == 3 && o.label.contains("stable")));
                ops.extend(mine);
                let n = p.tokens.len();
                if id == 0 {
                    ops.push(tx(BOB, EX, "swap", json!({"actions": [act(0, T1, T2, Some(9_999 * E18), 0)], "referral_id": REF}), 1));
                    ops.push(tx(ALICE, EX, "swap_by_output", json!({"actions": [act_out(0, T2, T1, Some(4_000 * E18), None)]}), 1));
                    ops.push(tx(BOB, EX, "add_liquidity", json!({"pool_id": 0, "amounts": strs(&[55 * E18, 999 * E18])}), NEAR / 100));
                    ops.push(tx(ALICE, EX, "remove_liquidity", json!({"pool_id": 0, "shares": (E24 / 3).to_string(), "min_amounts": ["0", "0"]}), 1));
                    ops.push(ft_call("an instant swap", CAROL, T2, 5_000 * E18, json!({"actions": [act(0, T2, T1, None, 0)]})));
                } else {
                    // everything in one token, with a trade elsewhere
                    let mut am = vec![0u128; n];
                    let (via, tin, tout) = match id {
                        1 => (3, "", ""),
                        2 => (0, T2, T1),
                        _ => (0, T1, T2),
                    };
                    if let Some(k) = p.tokens.iter().position(|t| t == tout) {
                        am[k] = 30 * E18;
                        ops.push(ft_call("zap of one token only", BOB, tin, 90 * E18, json!({"hot_zap_actions": [act(via, tin, tout, Some(90 * E18), 0)], "add_liquidity_infos": [{"pool_id": id, "amounts": strs(&am), "min_shares": "0"}]})));
                    }
                }
                if id == 3 {
                    ops.push(ft_call("zap of a part, after another pool", BOB, T1, 90 * E18, json!({"hot_zap_actions": [act(0, T1, T2, Some(60 * E18), 0)], "add_liquidity_infos": [{"pool_id": 0, "amounts": strs(&[10 * E18, 25 * E18]), "min_amounts": ["0", "0"]}, {"pool_id": 3, "amounts": strs(&[30 * E18, 0, 0]), "min_shares": "0"}]})));
                }
                ops.push(op("the exchange's fee shares are withdrawn", move |x| {
                    let s = shares(&x.view(EX), id, EX);
                    if s == 0 {
                        return x.skip();
                    }
                    x.call(OWNER, EX, "remove_exchange_fee_liquidity", json!({"pool_id": id, "shares": s.to_string(), "min_amounts": vec!["0"; n]}), 1);
                    Ok(())
                }));
                ops.push(txn("guardian starts observing", GUARD, EX, "register_pool_twap_record", json!({ "pool_id": id }), 1));
                ops.push(txn("guardian stops observing", GUARD, EX, "unregister_pool_twap_record", json!({ "pool_id": id }), 1));
                ops.push(txn("records every second", OWNER, EX, "modify_cumulative_info_record_interval_sec", json!({ "record_interval_sec": 0 }), 1));
                sc.ops = ops.into_iter().map(|o| watched(id, o)).collect();
                sc.depth = if th { 5 } else { 4 };
                sc.inv = Box::new(twap_inv(id));
                sc
            }));
        }
    }
    v
}
