//! E16 quoted rates of rated tokens, E17 oracle prices and value limits of degen pools.
use super::*;
use crate::chain::*;
use crate::ensure;
use crate::exh::*;
use crate::explore::*;
use crate::curve::p10;
use crate::model::*;
use crate::ops::*;
use crate::rates::*;
use crate::vm::*;
use crate::Ctx;
use num_bigint::BigInt;
use num_traits::{Signed, Zero};
use serde_json::{json, Value};
use std::collections::BTreeMap;

const ORA2: &str = "oracle2.test";
/// A rated token that nobody has asked for its rate yet.
const NE: &str = "ne.test";

// ---- what an oracle's answer says

/// One price of a price-oracle answer: asset, multiplier, decimals.
type Quoted = (String, Option<(BigInt, u32)>);

/// A price-oracle answer that may be believed at `now`; the prices in the order given.
fn po_answer(val: &[u8], now: u64, recency: u64, stale_s: u64) -> Option<Vec<Quoted>> {
    let v: Value = serde_json::from_slice(val).ok()?;
    let ts: u64 = v["timestamp"].as_str()?.parse().ok()?;
    if v["recency_duration_sec"].as_u64()? > recency || ts > now || now - ts > stale_s * SEC {
        return None;
    }
    let mut out = vec![];
    for p in v["prices"].as_array()? {
        let pr = &p["price"];
        let q = if pr.is_null() { None } else { Some((bigv(&pr["multiplier"]), pr["decimals"].as_u64()? as u32)) };
        out.push((p["asset_id"].as_str()?.to_string(), q));
    }
    Some(out)
}
/// A Pyth answer that may be believed at `now`, as numerator and denominator.
fn pyth_answer(val: &Value, now: u64, valid_s: u64) -> Option<(BigInt, BigInt)> {
    let p: i64 = val["price"].as_str()?.parse().ok()?;
    let t = val["publish_time"].as_i64()?;
    let e = val["expo"].as_i64()?;
    if p <= 0 || t <= 0 || (t as u64 + valid_s) * SEC < now {
        return None;
    }
    let p = big(p as u128);
    Some(if e > 0 { (p * p10(e as u32), big(1)) } else { (p, p10(-e as u32)) })
}

// ---- E16

/// Replies a staking contract may give: two proper quotes, and answers that are not a quote.
fn quotes(a: u128, b: u128) -> Vec<Reply> {
    vec![
        quote(a),
        quote(b),
        Reply::Fail,
        Reply::Ok("".into()),
        Reply::Ok("null".into()),
        Reply::Ok("\"\"".into()),
        Reply::Ok("\"-5\"".into()),
        Reply::Ok("\"12e20\"".into()),
        Reply::Ok("{\"price\":\"1\"}".into()),
        Reply::Ok("\"400000000000000000000000000000000000000\"".into()),
    ]
}
fn po_reply(ps: &[(&'static str, u128, u8)], age: i64, recency: u32) -> Reply {
    let ps = ps.to_vec();
    Reply::Dyn(std::sync::Arc::new(move |w, a| price_data(w, a, age, recency, &ps)))
}
/// An answer about these assets, whatever was asked for.
fn po_about(ps: &[(&'static str, u128, u8)]) -> Reply {
    let ps = ps.to_vec();
    Reply::Dyn(std::sync::Arc::new(move |w, _| {
        let ids: Vec<&str> = ps.iter().map(|p| p.0).collect();
        price_data(w, &json!({ "asset_ids": ids }), 0, 90, &ps)
    }))
}
fn po_swapped(ps: &[(&'static str, u128, u8)]) -> Reply {
    let ps = ps.to_vec();
    Reply::Dyn(std::sync::Arc::new(move |w, a| {
        let mut v: Value = serde_json::from_str(&price_data(w, a, 0, 90, &ps)).unwrap();
        v["prices"].as_array_mut().unwrap().reverse();
        v.to_string()
    }))
}
fn po_truncated(ps: &[(&'static str, u128, u8)]) -> Reply {
    let ps = ps.to_vec();
    Reply::Dyn(std::sync::Arc::new(move |w, a| {
        let mut v: Value = serde_json::from_str(&price_data(w, a, 0, 90, &ps)).unwrap();
        v["prices"].as_array_mut().unwrap().truncate(1);
        v.to_string()
    }))
}
fn pyth_reply(price: &'static [(&'static str, i64, i32)], age_s: i64) -> Reply {
    pyth_one(price.to_vec(), age_s)
}

const SF_PO: &str = r#"{"PriceOracle":{"oracle_id":"oracle.test","base_contract_id":"frax.test","maximum_recency_duration_sec":90,"maximum_staleness_duration_sec":60}}"#;
const SF_PO2: &str = r#"{"PriceOracle":{"oracle_id":"oracle2.test","base_contract_id":"frax.test","maximum_recency_duration_sec":30,"maximum_staleness_duration_sec":10}}"#;
fn sf_pyth() -> String {
    format!(r#"{{"PythOracle":{{"oracle_id":"{}","base_price_identifier":"{}","rate_price_identifier":"{}","pyth_price_valid_duration_sec":60}}}}"#, PYTH, PID, PID2)
}

/// Pools: 0 rated WNEAR/ST/LI; 1 rated NX/WNEAR; 2 rated FRAX/SF; all tokens fresh.
fn rated_setup(cx: &Ctx) -> Sb {
    let mut s = exchange(&cx.ex, 1600, 400);
    tokens(&mut s, &[ST, LI, NX, SF, FRAX, NE]);
    s.env.actors.insert(ORA.into(), Actor::Menu(vec![]));
    s.env.actors.insert(ORA2.into(), Actor::Menu(vec![]));
    s.env.actors.insert(PYTH.into(), Actor::Menu(vec![]));
    for a in [OWNER, ALICE, BOB] {
        s.storage(a, NEAR / 10);
    }
    for (t, one) in [(WNEAR, E24), (ST, E24), (LI, E24), (NX, E24), (SF, E18), (FRAX, E18), (NE, E24)] {
        s.deposit(ALICE, t, 3_000_000 * one);
        s.deposit(BOB, t, 40_000 * one);
    }
    rate_quotes(&mut s, 12 * E24 / 10, 131 * E24 / 100, E24);
    s.env.menus.insert(ORA.into(), vec![("get_price_data", vec![oracle_ok(vec![(FRAX, 9_990, 22), (SF, 11_437, 22)])])]);
    s.one(OWNER, "register_rated_token", json!({"rate_type": "STNEAR", "token_id": ST}));
    s.one(OWNER, "register_rated_token", json!({"rate_type": "LINEAR", "token_id": LI}));
    s.one(GUARD, "register_rated_token", json!({"rate_type": "NEARX", "token_id": NX}));
    s.one(OWNER, "register_rated_token", json!({"rate_type": "SFRAX", "token_id": SF, "extra_info": SF_PO}));
    for t in [ST, LI, NX, SF] {
        s.must(CAROL, EX, "update_token_rate", json!({ "token_id": t }), 0);
    }
    s.pool_of("add_rated_swap_pool", &[WNEAR, ST, LI], &[24, 24, 24], 20, 100);
    s.pool_of("add_rated_swap_pool", &[NX, WNEAR], &[24, 24], 5, 200);
    s.pool_of("add_rated_swap_pool", &[FRAX, SF], &[18, 18], 5, 200);
    s.add_stable(ALICE, 0, &[100_000 * E24, 83_000 * E24, 77_000 * E24]);
    s.add_stable(ALICE, 1, &[100_000 * E24, 105_000 * E24]);
    s.add_stable(ALICE, 2, &[100_000 * E18, 90_000 * E18]);
    s.add_stable(BOB, 0, &[1_000 * E24, 830 * E24, 770 * E24]);
    s.add_stable(BOB, 1, &[1_000 * E24, 830 * E24]);
    s.add_stable(BOB, 2, &[1_000 * E18, 830 * E18]);
    // a pool without liquidity
    s.one(OWNER, "register_rated_token", json!({"rate_type": "LINEAR", "token_id": NE}));
    s.env.menus.insert(NE.into(), vec![("ft_price", vec![quote(111 * E24 / 100)])]);
    s.pool_of("add_rated_swap_pool", &[ST, NE], &[24, 24], 5, 200);
    s
}
const RPOOLS: &[&[&str]] = &[&[WNEAR, ST, LI], &[NX, WNEAR], &[FRAX, SF], &[ST, NE]];

/// The menus of all oracles with every kind of answer.
fn rated_menus(s: &mut Sb, brief: bool) {
    let cut = |v: Vec<Reply>| if brief { v.into_iter().take(3).collect() } else { v };
    s.env.menus.insert(ST.into(), vec![("get_st_near_price", cut(quotes(121 * E24 / 100, 122 * E24 / 100 + 1)))]);
    s.env.menus.insert(LI.into(), vec![("ft_price", cut(quotes(132 * E24 / 100, 133 * E24 / 100 + 7)))]);
    s.env.menus.insert(NX.into(), vec![("get_nearx_price", cut(quotes(106 * E24 / 100, 107 * E24 / 100 + 3)))]);
    let good: &[(&str, u128, u8)] = &[(FRAX, 10_001, 22), (SF, 11_500, 22)];
    let other: &[(&str, u128, u8)] = &[(FRAX, 9_995_123, 26), (SF, 11_511_777, 26)];
    let v = vec![
        po_reply(good, 0, 90),
        po_reply(other, 60 * SEC as i64, 90),
        Reply::Fail,
        po_reply(good, 60 * SEC as i64 + 1, 90),
        po_reply(good, -1, 90),
        po_reply(good, 0, 91),
        po_swapped(good),
        po_truncated(good),
        po_about(&[(FRAX, 10_001, 22), ("other.test", 11_500, 22)]),
        po_about(&[("other.test", 10_001, 22), (SF, 11_500, 22)]),
        po_reply(&[(FRAX, 10_001, 22)], 0, 90),
        po_reply(&[(SF, 10_001, 22)], 0, 90),
        po_reply(&[(FRAX, 10_001, 22), (SF, 11_500, 23)], 0, 90),
        po_reply(&[(FRAX, 0, 22), (SF, 11_500, 22)], 0, 90),
        Reply::Ok("null".into()),
        Reply::Ok("{}".into()),
        Reply::Ok("\"1\"".into()),
    ];
    s.env.menus.insert(ORA.into(), vec![("get_price_data", cut(v))]);
    s.env.menus.insert(ORA2.into(), vec![("get_price_data", vec![po_reply(&[(FRAX, 10_003, 22), (SF, 11_600, 22)], 10 * SEC as i64, 30), po_reply(&[(FRAX, 10_003, 22), (SF, 11_600, 22)], 11 * SEC as i64, 30), po_reply(good, 0, 31)])]);
    let v = vec![
        pyth_reply(&[(PID, 99_980_000, -8), (PID2, 115_430_001, -8)], 0),
        pyth_reply(&[(PID, 100_130_000, -8), (PID2, 11_563_000, -7)], 60),
        Reply::Fail,
        pyth_reply(&[(PID, 99_980_000, -8), (PID2, 115_430_001, -8)], 61),
        pyth_reply(&[(PID, 0, -8), (PID2, 0, -8)], 0),
        pyth_reply(&[(PID, -99_980_000, -8), (PID2, -115_430_001, -8)], 0),
        pyth_reply(&[(PID, 2, 1), (PID2, 3, 1)], 0),
        Reply::Ok("null".into()),
        Reply::Ok("{\"price\":\"5\"}".into()),
    ];
    s.env.menus.insert(PYTH.into(), vec![("get_price", cut(v))]);
}

/// What answers to an update of token `t` allow: a new rate, or none. `None`: either is fine.
enum Want {
    Set(BigInt),
    Keep,
    Maybe(BigInt),
}
fn sf_info(v: &Viewer) -> Value {
    v.get("list_rated_tokens", json!({}))[SF]["extra_info"].as_str().and_then(|s| serde_json::from_str(s).ok()).unwrap_or_default()
}
fn ratio(num: BigInt, den: BigInt) -> Option<BigInt> {
    if den.is_zero() {
        None
    } else {
        Some(p10(24) * num / den)
    }
}
fn want_simple(val: &Option<Vec<u8>>) -> Want {
    let p = val.as_ref().and_then(|b| serde_json::from_slice::<Value>(b).ok()).and_then(|v| v.as_str().and_then(|s| s.parse::<u128>().ok()));
    match p {
        Some(p) => Want::Set(big(p)),
        None => Want::Keep,
    }
}
fn want_sfrax(info: &Value, vals: &[Option<Vec<u8>>], now: u64) -> Want {
    if info["PriceOracle"].is_object() {
        let o = &info["PriceOracle"];
        let r = vals.first().cloned().flatten().and_then(|b| po_answer(&b, now, o["maximum_recency_duration_sec"].as_u64().unwrap(), o["maximum_staleness_duration_sec"].as_u64().unwrap()));
        let r = match r {
            Some(r) => r,
            None => return Want::Keep,
        };
        let base = r.iter().find(|x| x.0 == FRAX).and_then(|x| x.1.clone());
        let rate = r.iter().find(|x| x.0 == SF).and_then(|x| x.1.clone());
        match (base, rate) {
            (Some((b, d)), Some((q, e))) => match ratio(&q * p10(d), &b * p10(e)) {
                // the answer may be refused when it is not in the form asked for
                Some(p) if d != e || r[0].0 != FRAX => Want::Maybe(p),
                Some(p) => Want::Set(p),
                None => Want::Keep,
            },
            _ => Want::Keep,
        }
    } else {
        let valid = info["PythOracle"]["pyth_price_valid_duration_sec"].as_u64().unwrap();
        let ps: Vec<Option<(BigInt, BigInt)>> = vals.iter().map(|x| x.as_ref().and_then(|b| serde_json::from_slice::<Value>(b).ok()).and_then(|v| pyth_answer(&v, now, valid))).collect();
        match (&ps[..], ()) {
            ([Some((bn, bd)), Some((rn, rd))], _) => match ratio(rn * bd, rd * bn) {
                Some(p) => Want::Set(p),
                None => Want::Keep,
            },
            _ => Want::Keep,
        }
    }
}

/// The answers the update of `t` waits for, found among the calls made.
fn asked(v: &Viewer, t: &str, log: &[Exec]) -> Vec<Option<Vec<u8>>> {
    let kind = v.get("list_rated_tokens", json!({}))[t]["rate_type"].as_str().unwrap_or("").to_string();
    let ans = |recv: &str, m: &str, k: Option<(&str, &str)>| {
        log.iter()
            .find(|e| {
                e.recv == recv && e.pred == EX && e.method == m && k.map_or(true, |(k, x)| serde_json::from_str::<Value>(&e.args).unwrap_or_default()[k] == x)
            })
            .map(|e| if e.ok { Some(e.ret.clone().unwrap_or_default()) } else { None })
    };
    let l = match &kind[..] {
        "STNEAR" => vec![ans(t, "get_st_near_price", None)],
        "LINEAR" => vec![ans(t, "ft_price", None)],
        "NEARX" => vec![ans(t, "get_nearx_price", None)],
        _ => {
            let i = sf_info(v);
            if i["PriceOracle"].is_object() {
                vec![ans(i["PriceOracle"]["oracle_id"].as_str().unwrap(), "get_price_data", None)]
            } else {
                let o = &i["PythOracle"];
                let at = o["oracle_id"].as_str().unwrap();
                vec![
                    ans(at, "get_price", Some(("price_identifier", o["base_price_identifier"].as_str().unwrap()))),
                    ans(at, "get_price", Some(("price_identifier", o["rate_price_identifier"].as_str().unwrap()))),
                ]
            }
        }
    };
    // never asked: nothing can be concluded from an answer
    if l.iter().any(|x| x.is_none()) {
        return vec![];
    }
    l.into_iter().map(|x| x.unwrap()).collect()
}

fn rated_inv(env: &Env, w: &World) -> R {
    let v = env.view(w, EX);
    let m = v.get("list_rated_tokens", json!({}));
    for (t, x) in m.as_object().unwrap() {
        let ts = u(&x["last_update_ts"]);
        let ok = w.ts as u128 <= ts + DAY as u128;
        ensure!(x["is_valid"] == ok, "e16:validity", "the rate of {} is {} old and said to be {}", t, w.ts as u128 - ts.min(w.ts as u128), if ok { "expired" } else { "valid" });
    }
    Ok(())
}
fn all_valid(w: &World, v: &Viewer, toks: &[&str]) -> bool {
    let m = v.get("list_rated_tokens", json!({}));
    toks.iter().all(|t| m[*t].is_null() || w.ts as u128 <= u(&m[*t]["last_update_ts"]) + DAY as u128)
}

fn rated_step(env: &Env, pre: &World, post: &World, log: &[Exec]) -> R {
    let (v, pv) = (env.view(pre, EX), env.view(post, EX));
    let (m0, m1) = (v.get("list_rated_tokens", json!({})), pv.get("list_rated_tokens", json!({})));
    let e = match log.first() {
        Some(e) => e,
        None => {
            return Ok(());
        }
    };
    let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
    let now = post.ts as u128;
    let mine = if e.recv == EX && e.method == "update_token_rate" { a["token_id"].as_str().unwrap_or("") } else { "" };
    for (t, x) in m1.as_object().unwrap() {
        let y = &m0[t];
        let same = x["rate_price"] == y["rate_price"] && x["last_update_ts"] == y["last_update_ts"];
        if t != mine {
            ensure!(same, "e16:others", "{}({}) changed the rate of {}", e.method, e.args, t);
            continue;
        }
        ensure!(e.ok, "e16:update", "{}({}) by {} was refused: {}", e.method, e.args, e.pred, e.err);
        let vals = asked(&v, t, log);
        ensure!(!vals.is_empty(), "e16:asked", "the update of {} did not ask the contract that quotes it", t);
        let w = if t == SF { want_sfrax(&sf_info(&v), &vals, post.ts) } else { want_simple(&vals[0]) };
        let is = |p: &BigInt| bigv(&x["rate_price"]) == *p && u(&x["last_update_ts"]) == now;
        let show = || vals.iter().map(|b| b.as_ref().map(|b| String::from_utf8_lossy(b).to_string()).unwrap_or("failure".into())).collect::<Vec<_>>().join(" and ");
        match w {
            Want::Set(p) => ensure!(is(&p), "e16:set", "answer {}: the rate of {} is {} of {}, should be {}", show(), t, x["rate_price"], x["last_update_ts"], p),
            Want::Keep => ensure!(same, "e16:keep", "answer {}: the rate of {} changed to {}", show(), t, x["rate_price"]),
            Want::Maybe(p) => ensure!(same || is(&p), "e16:set", "answer {}: the rate of {} changed to {}", show(), t, x["rate_price"]),
        }
    }
    if e.recv == EX && e.pred == BOB && !a["actions"].is_null() || !a["pool_id"].is_null() {
        let id = a["pool_id"].as_u64().or(a["actions"][0]["pool_id"].as_u64()).unwrap() as usize;
        let fresh = all_valid(pre, &v, RPOOLS[id]);
        let dead = id == 3 && e.method != "add_stable_liquidity" && pool(&v, 3).supply == 0;
        if e.method == "remove_liquidity" {
            ensure!(e.ok || dead, "e16:exit", "{}({}) was refused: {}", e.method, e.args, e.err);
        } else if !dead {
            ensure!(e.ok == fresh, "e16:refused", "{}({}) was {} ({}) while the rates of {:?} were {}", e.method, e.args, if e.ok { "accepted" } else { "refused" }, e.err, RPOOLS[id], if fresh { "valid" } else { "expired" });
            // it is these rates that set the price
            if e.method == "swap" {
                let rates: Vec<Value> = RPOOLS[id].iter().map(|t| if m0[*t].is_null() { json!(E24.to_string()) } else { m0[*t]["rate_price"].clone() }).collect();
                let x = &a["actions"][0];
                let q = v.get("get_rated_return", json!({"pool_id": id, "token_in": x["token_in"], "token_out": x["token_out"], "amount_in": x["amount_in"], "rates": rates}));
                let out = x["token_out"].as_str().unwrap();
                let got = deposit_v(&pv, BOB, out) - deposit_v(&v, BOB, out);
                ensure!(!e.ok || u(&q) == got, "e16:price", "{}({}) paid {}, the recorded rates give {}", e.method, e.args, got, q);
            }
        }
    }
    Ok(())
}

fn update(t: &'static str) -> Op {
    txn(&format!("update {}", short(t)), CAROL, EX, "update_token_rate", json!({ "token_id": t }), 0)
}
fn wait(name: &str, d: u64) -> Op {
    op(name, move |x| {
        x.w.ts += d;
        Ok(())
    })
}
fn rated_uses() -> Vec<Op> {
    let mut ops = vec![];
    for (id, toks) in RPOOLS.iter().enumerate() {
        let one = if id == 2 { E18 } else { E24 };
        let n = toks.len();
        let mut v = vec![0; n];
        v[0] = 3 * one + 1;
        ops.push(txn(&format!("swap in {}", id), BOB, EX, "swap", json!({"actions": [act(id as u64, toks[0], toks[n - 1], Some(2 * one + 3), 0)]}), 1));
        ops.push(txn(&format!("swap back in {}", id), BOB, EX, "swap", json!({"actions": [act(id as u64, toks[1], toks[0], Some(one + 3), 0)]}), 1));
        ops.push(txn(&format!("add to {}", id), BOB, EX, "add_stable_liquidity", json!({"pool_id": id, "amounts": strs(&if id == 3 { vec![50 * one; n] } else { v.clone() }), "min_shares": "0"}), NEAR / 50));
        ops.push(txn(&format!("take from {}", id), BOB, EX, "remove_liquidity_by_tokens", json!({"pool_id": id, "amounts": strs(&v), "max_burn_shares": (u128::MAX / 4).to_string()}), 1));
        ops.push(txn(&format!("leave {}", id), BOB, EX, "remove_liquidity", json!({"pool_id": id, "shares": one.to_string(), "min_amounts": vec!["0"; n]}), 1));
    }
    ops
}

/// A step of an interleaving: a rate changes only where a proper answer arrives, to that answer.
fn rated_arrival(env: &Env, pre: &World, post: &World, log: &[Exec]) -> R {
    let (v, pv) = (env.view(pre, EX), env.view(post, EX));
    let (m0, m1) = (v.get("list_rated_tokens", json!({})), pv.get("list_rated_tokens", json!({})));
    let cb = log.iter().find(|e| e.recv == EX && e.pred == EX && !e.inputs.is_empty());
    let mut set = 0;
    for (t, x) in m1.as_object().unwrap() {
        let y = &m0[t];
        if x["rate_price"] == y["rate_price"] && x["last_update_ts"] == y["last_update_ts"] {
            // unchanged, or set again to the same in the same block
            continue;
        }
        let c = match cb {
            Some(c) => c,
            None => crate::fail!("e16:arrival", "the rate of {} changed although no answer arrived", t),
        };
        set += 1;
        let w = if t == SF { want_sfrax(&sf_info(&v), &c.vals, post.ts) } else { want_simple(&c.vals[0]) };
        match w {
            Want::Set(p) | Want::Maybe(p) => ensure!(bigv(&x["rate_price"]) == p && u(&x["last_update_ts"]) == post.ts as u128, "e16:arrival", "the rate of {} became {} of {}, the answer that arrived says {}", t, x["rate_price"], x["last_update_ts"], p),
            Want::Keep => crate::fail!("e16:arrival", "the rate of {} became {} without a proper answer", t, x["rate_price"]),
        }
        // each contract quotes in its own range
        let ok = match &t[..] {
            ST => 121..=122,
            LI => 132..=133,
            NX => 106..=107,
            _ => 114..=116,
        }
        .contains(&(u(&x["rate_price"]) / (E24 / 100)));
        ensure!(ok, "e16:whose", "the rate of {} became {}, which its contract never said", t, x["rate_price"]);
    }
    ensure!(set <= 1, "e16:whose", "one answer changed the rates of {} tokens", set);
    if let Some(c) = cb {
        // a proper quote of a staking contract is recorded when it arrives
        if c.vals.len() == 1 {
            if let Want::Set(p) = want_simple(&c.vals[0]) {
                let hit = m1.as_object().unwrap().values().any(|x| bigv(&x["rate_price"]) == p && u(&x["last_update_ts"]) == post.ts as u128);
                ensure!(hit, "e16:lost", "the quote {} arrived and was not recorded", p);
            }
        }
    }
    Ok(())
}

pub fn e16(cx: &Ctx) -> Mk {
    let th = cx.thorough;
    let mut v: Mk = vec![];
    v.push(mk(cx, "every kind of answer, rates expiring", move |cx| {
        let mut s = rated_setup(cx);
        rated_menus(&mut s, false);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = vec![update(ST), update(LI), update(NX), update(SF), update(NE), update(T1)];
        sc.ops.push(wait("wait 12 hours", DAY / 2));
        sc.ops.push(wait("wait a moment", 1));
        sc.ops.extend(rated_uses());
        sc.depth = if th { 4 } else { 3 };
        sc.step = Box::new(rated_step);
        sc.inv = Box::new(rated_inv);
        sc
    }));
    v.push(mk(cx, "expiry of each token, long histories", move |cx| {
        let mut s = rated_setup(cx);
        rated_menus(&mut s, true);
        for t in [ST, LI, NX, ORA] {
            for m in s.env.menus.get_mut(t).unwrap() {
                m.1.truncate(1);
            }
        }
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = vec![update(ST), update(LI), update(NX), update(SF), update(NE)];
        sc.ops.push(wait("wait 12 hours", DAY / 2));
        sc.ops.push(wait("wait a moment", 1));
        sc.ops.push(op("use every pool", move |x| {
            // from this state each use on its own
            for o in rated_uses() {
                let mut ch = Chooser::new(vec![]);
                let mut y = X { env: x.env, w: x.w.clone(), ch: &mut ch, eager: true, log: vec![], skipped: false, class: String::new() };
                (o.f)(&mut y)?;
                let w2 = y.w.clone();
                rated_step(x.env, &x.w, &w2, &y.log)?;
            }
            Ok(())
        }));
        sc.depth = if th { 8 } else { 6 };
        sc.step = Box::new(rated_step);
        sc.inv = Box::new(rated_inv);
        sc
    }));
    v.push(mk(cx, "SFRAX moved between oracles", move |cx| {
        let mut s = rated_setup(cx);
        rated_menus(&mut s, false);
        let mut sc = Scenario::new("", s.env, s.w);
        let py: &'static str = Box::leak(sf_pyth().into_boxed_str());
        sc.ops = vec![update(SF)];
        for (n, i) in [("price oracle", SF_PO), ("second oracle", SF_PO2), ("pyth", py)] {
            sc.ops.push(txn(&format!("sfrax from {}", n), OWNER, EX, "update_rated_token_extra_info", json!({"token_id": SF, "extra_info": i}), 1));
        }
        sc.ops.push(wait("wait a day", DAY));
        sc.ops.push(wait("wait a moment", 1));
        let us = rated_uses();
        sc.ops.extend(us.into_iter().skip(10).take(5));
        sc.depth = if th { 5 } else { 4 };
        sc.step = Box::new(rated_step);
        sc.inv = Box::new(rated_inv);
        sc
    }));
    v.push(mk(cx, "answers arriving in any order", move |cx| {
        let mut s = rated_setup(cx);
        rated_menus(&mut s, true);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = vec![update(ST), update(LI), update(SF), wait("wait a minute", 61 * SEC)];
        sc.interleave = true;
        sc.max_pending = if th { 5 } else { 4 };
        sc.depth = if th { 9 } else { 7 };
        sc.step = Box::new(rated_arrival);
        sc.inv = Box::new(rated_inv);
        sc
    }));
    v
}

// ---- E17

const G2: &str = "pepe.test";
const DTOK: &[&str] = &[T1, USD, G2, T3];
const DDEC: &[u32] = &[18, 6, 8, 18];
const DPOOLS: &[&[usize]] = &[&[0, 1], &[2, 3, 1]];

/// Degen tokens T1 (18, price oracle), G2 (8, price oracle), USD and T3 (one Pyth identifier).
/// Pools 0 T1/USD, 1 G2/T3/USD.
fn dg_setup(cx: &Ctx) -> Sb {
    let mut s = exchange(&cx.ex, 1600, 400);
    tokens(&mut s, &[USD, G2]);
    for a in [OWNER, ALICE, BOB] {
        s.storage(a, NEAR / 10);
    }
    for (t, d) in DTOK.iter().zip(DDEC) {
        s.deposit(ALICE, t, 3_000_000 * 10u128.pow(*d));
        s.deposit(BOB, t, 400_000 * 10u128.pow(*d));
        s.mint(t, BOB, 400_000 * 10u128.pow(*d));
    }
    s.env.actors.insert(ORA.into(), Actor::Menu(vec![]));
    s.env.actors.insert(ORA2.into(), Actor::Menu(vec![]));
    s.env.actors.insert(PYTH.into(), Actor::Menu(vec![]));
    s.env.menus.insert(ORA.into(), vec![("get_price_data", vec![oracle_ok(vec![(T1, 35_417, 22), (G2, 20_003, 12)])])]);
    s.env.menus.insert(PYTH.into(), vec![("get_price", vec![pyth_one(vec![(PID, 100_013_337, -8)], 0)]), ("list_prices_no_older_than", vec![pyth_many(vec![(PID, 100_013_337, -8)], 0)])]);
    s.one(OWNER, "register_degen_oracle_config", json!({ "degen_oracle_config": po_cfg(ORA, EXPIRE) }));
    s.one(OWNER, "register_degen_oracle_config", json!({"degen_oracle_config": {"PythOracle": {"oracle_id": PYTH, "expire_ts": EXPIRE.to_string(), "pyth_price_valid_duration_sec": 60}}}));
    for (t, d) in [(T1, 18), (G2, 8)] {
        s.one(OWNER, "register_degen_token", json!({"token_id": t, "degen_type": {"PriceOracle": {"decimals": d}}}));
    }
    for t in [USD, T3] {
        s.one(GUARD, "register_degen_token", json!({"token_id": t, "degen_type": {"PythOracle": {"price_identifier": PID}}}));
    }
    s.must(CAROL, EX, "batch_update_degen_token_price", json!({ "token_ids": DTOK }), 0);
    s.pool_of("add_degen_swap_pool", &[T1, USD], &[18, 6], 15, 30);
    s.pool_of("add_degen_swap_pool", &[G2, T3, USD], &[8, 18, 6], 15, 300);
    s.add_stable(ALICE, 0, &[30_000 * E18 + 5, 110_000 * E6 + 1]);
    s.add_stable(ALICE, 1, &[30_000 * 100_000_000 + 5, 60_000 * E18 + 1, 60_000 * E6]);
    s.add_stable(BOB, 0, &[3_000 * E18 + 5, 11_000 * E6 + 1]);
    s.add_stable(BOB, 1, &[3_000 * 100_000_000 + 5, 6_000 * E18 + 1, 6_000 * E6]);
    s
}
fn po_cfg(at: &str, expire: u64) -> Value {
    json!({"PriceOracle": {"oracle_id": at, "expire_ts": expire.to_string(), "maximum_recency_duration_sec": 90, "maximum_staleness_duration_sec": 90}})
}
fn dg_menus(s: &mut Sb, n: usize) {
    let cut = |v: Vec<Reply>| v.into_iter().take(n).collect::<Vec<_>>();
    let a: &[(&str, u128, u8)] = &[(T1, 35_999, 22), (G2, 20_777, 12)];
    let b: &[(&str, u128, u8)] = &[(T1, 71_000_123, 25), (G2, 1, 8)];
    s.env.menus.insert(
        ORA.into(),
        vec![(
            "get_price_data",
            cut(vec![
                po_reply(a, 0, 90),
                po_reply(b, 90 * SEC as i64, 0),
                Reply::Fail,
                po_reply(&[(T1, 35_998, 22)], 0, 90),
                po_reply(&[(G2, 20_778, 12)], 0, 90),
                po_reply(a, 90 * SEC as i64 + 1, 90),
                po_reply(a, -1, 90),
                po_reply(a, 0, 91),
                po_swapped(a),
                po_about(&[(G2, 20_779, 12)]),
                po_about(&[(T1, 35_997, 22)]),
                po_about(&[("other.test", 35_997, 22), (G2, 20_779, 12), (USD, 1, 10), (T1, 35_997, 22)]),
                Reply::Ok("{}".into()),
                Reply::Ok("null".into()),
            ]),
        )],
    );
    s.env.menus.insert(ORA2.into(), vec![("get_price_data", vec![oracle_ok(vec![(T1, 40_000, 22), (G2, 30_000, 12)])])]);
    let ps: Vec<(&'static [(&'static str, i64, i32)], i64)> = vec![(&[(PID, 99_913_337, -8)], 0), (&[(PID, 1_003, -3)], 60), (&[(PID, 99_913_337, -8)], 61), (&[(PID, 0, -8)], 0), (&[(PID, -99_913_337, -8)], 0), (&[], 0), (&[(PID, 2, 1)], 0)];
    let mut one: Vec<Reply> = ps.iter().map(|(p, a)| pyth_one(p.to_vec(), *a)).collect();
    let mut many: Vec<Reply> = ps.iter().map(|(p, a)| pyth_many(p.to_vec(), *a)).collect();
    for v in [&mut one, &mut many] {
        v.insert(2, Reply::Fail);
        v.push(Reply::Ok("[]".into()));
        v.push(Reply::Ok("{\"x\":1}".into()));
    }
    s.env.menus.insert(PYTH.into(), vec![("get_price", cut(one)), ("list_prices_no_older_than", cut(many))]);
}

/// The prices an answered request allows: token, price.
fn dg_answer(e_method: &str, args: &Value, val: &[u8], now: u64, infos: &Value, cfg: &Value) -> BTreeMap<String, BigInt> {
    let mut m = BTreeMap::new();
    let put = |m: &mut BTreeMap<String, BigInt>, id: &str, x: &Value| {
        if let Some((n, d)) = pyth_answer(x, now, cfg["PythOracleConfig"]["PythOracle"]["pyth_price_valid_duration_sec"].as_u64().unwrap()) {
            for (t, i) in infos.as_object().unwrap() {
                if i["price_identifier"] == id {
                    m.insert(t.clone(), p10(24) * &n / &d);
                }
            }
        }
    };
    match e_method {
        "get_price_data" => {
            let c = &cfg["PriceOracleConfig"]["PriceOracle"];
            let r = po_answer(val, now, c["maximum_recency_duration_sec"].as_u64().unwrap(), c["maximum_staleness_duration_sec"].as_u64().unwrap());
            for (t, q) in r.unwrap_or_default() {
                if let Some((mult, d)) = q {
                    if let Some(td) = infos[&t]["decimals"].as_u64() {
                        m.insert(t, p10(24) * mult / p10(d - td as u32));
                    }
                }
            }
        }
        "get_price" => {
            if let Ok(x) = serde_json::from_slice::<Value>(val) {
                put(&mut m, args["price_identifier"].as_str().unwrap_or(""), &x);
            }
        }
        _ => {
            if let Ok(Value::Object(o)) = serde_json::from_slice::<Value>(val) {
                for (k, x) in o {
                    put(&mut m, &k, &x);
                }
            }
        }
    }
    m
}
fn dg_valid(w: &World, v: &Viewer) -> Vec<bool> {
    let m = v.get("list_degen_tokens", json!({}));
    let c = v.get("list_degen_oracle_configs", json!({}));
    let exp = |k: &str, t: &str| u(&c[k][t]["expire_ts"]);
    DTOK.iter()
        .map(|t| {
            let e = if m[*t]["decimals"].is_null() { exp("PythOracleConfig", "PythOracle") } else { exp("PriceOracleConfig", "PriceOracle") };
            w.ts as u128 <= u(&m[*t]["last_update_ts"]) + e
        })
        .collect()
}
fn dg_inv(env: &Env, w: &World) -> R {
    let v = env.view(w, EX);
    let m = v.get("list_degen_tokens", json!({}));
    let ok = dg_valid(w, &v);
    for (i, t) in DTOK.iter().enumerate() {
        ensure!(m[*t]["is_price_valid"] == ok[i], "e17:validity", "the price of {} of {} is said to be {} at {}", t, m[*t]["last_update_ts"], if ok[i] { "expired" } else { "valid" }, w.ts);
    }
    for (id, p) in DPOOLS.iter().enumerate() {
        let o = pool(&v, id as u64);
        let tvl = v.try_get("get_degen_pool_tvl", json!({ "pool_id": id }));
        if p.iter().all(|i| ok[*i]) {
            let want: BigInt = p.iter().enumerate().map(|(k, i)| tvl_part(&m, *i, &big(o.amounts[k]))).sum();
            let got = tvl.map_err(|e| Fail { key: "e17:tvl".into(), msg: format!("the value of pool {} is not reported: {}", id, e) })?;
            // amounts are shown in the tokens' own precision
            ensure!((bigv(&got) - &want).abs() <= big(2), "e17:tvl", "pool {} is said to be worth {}, its reserves {:?} are worth {}", id, got, o.amounts, want);
        } else {
            ensure!(tvl.is_err(), "e17:tvl", "pool {} is said to be worth {:?} at expired prices", id, tvl);
        }
    }
    Ok(())
}
fn tvl_part(m: &Value, i: usize, amount: &BigInt) -> BigInt {
    let c = amount * p10(24 - DDEC[i]);
    c * bigv(&m[DTOK[i]]["degen_price"]) / p10(24) / p10(24)
}
fn limit_of(v: &Viewer, id: u64) -> Option<BigInt> {
    let l = v.get("get_pool_limit_by_pool_id", json!({ "pool_id": id }));
    fn find(x: &Value) -> Option<&Value> {
        match x {
            Value::Object(o) => o.get("tvl_limit").or_else(|| o.values().find_map(find)),
            _ => None,
        }
    }
    find(&l).map(bigv)
}

/// One price was asked for, and the answer begins with another token.
fn astray(o: &Exec) -> bool {
    let b: Value = serde_json::from_str(&o.args).unwrap_or_default();
    let r: Value = serde_json::from_slice(o.ret.as_deref().unwrap_or(b"")).unwrap_or_default();
    b["asset_ids"].as_array().map_or(false, |l| l.len() == 1 && r["prices"][0]["asset_id"] != l[0])
}
/// The tokens an operation wants fresh prices for.
fn dg_requested(e: &Exec, a: &Value) -> Vec<usize> {
    let idx = |t: &str| DTOK.iter().position(|x| *x == t);
    match &e.method[..] {
        "update_degen_token_price" => a["token_id"].as_str().and_then(idx).into_iter().collect(),
        "batch_update_degen_token_price" => a["token_ids"].as_array().unwrap().iter().filter_map(|t| t.as_str().and_then(idx)).collect(),
        "swap" if a["skip_degen_price_sync"] != true => a["actions"].as_array().unwrap().iter().flat_map(|x| DPOOLS[x["pool_id"].as_u64().unwrap() as usize].to_vec()).collect(),
        _ => vec![],
    }
}

fn dg_step(env: &Env, pre: &World, post: &World, log: &[Exec]) -> R {
    let e = match log.first() {
        Some(e) if e.pred != EX => e,
        _ => return Ok(()),
    };
    let (v, pv) = (env.view(pre, EX), env.view(post, EX));
    let (m0, m1) = (v.get("list_degen_tokens", json!({})), pv.get("list_degen_tokens", json!({})));
    let cfg = v.get("list_degen_oracle_configs", json!({}));
    let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
    let now = post.ts as u128;
    let req = if e.ok { dg_requested(e, &a) } else { vec![] };
    for (i, t) in DTOK.iter().enumerate() {
        let (x, y) = (&m1[*t], &m0[*t]);
        let same = x["degen_price"] == y["degen_price"] && x["last_update_ts"] == y["last_update_ts"];
        // the answer about this token from the oracle of its kind
        let pyth = y["decimals"].is_null();
        let at = if pyth { cfg["PythOracleConfig"]["PythOracle"]["oracle_id"].as_str() } else { cfg["PriceOracleConfig"]["PriceOracle"]["oracle_id"].as_str() };
        let q = log.iter().find(|o| {
            let b: Value = serde_json::from_str(&o.args).unwrap_or_default();
            o.pred == EX
                && Some(&o.recv[..]) == at
                && match &o.method[..] {
                    "get_price_data" => b["asset_ids"].as_array().map_or(false, |l| l.iter().any(|k| k == t)),
                    "get_price" => pyth && b["price_identifier"] == y["price_identifier"],
                    "list_prices_no_older_than" => pyth && b["price_ids"].as_array().map_or(false, |l| l.contains(&y["price_identifier"])),
                    _ => false,
                }
        });
        let want = q.filter(|o| o.ok).and_then(|o| dg_answer(&o.method, &serde_json::from_str(&o.args).unwrap_or_default(), o.ret.as_deref().unwrap_or(b""), post.ts, &m0, &cfg).get(*t).cloned());
        let is = |p: &BigInt| bigv(&x["degen_price"]) == *p && u(&x["last_update_ts"]) == now;
        let ans = q.map(|o| o.ret.as_ref().map(|b| String::from_utf8_lossy(b).to_string()).unwrap_or("failure".into())).unwrap_or("none".into());
        if req.contains(&i) {
            ensure!(q.is_some(), "e17:asked", "{}({}) did not ask the oracle of {}", e.method, e.args, t);
            match want {
                // an answer that is about another token first may be refused when only one was asked for
                Some(_) if same && astray(q.unwrap()) => {}
                Some(p) => ensure!(is(&p), "e17:set", "answer {}: the price of {} is {} of {}, should be {}", ans, t, x["degen_price"], x["last_update_ts"], p),
                None => ensure!(same, "e17:keep", "answer {}: the price of {} changed to {}", ans, t, x["degen_price"]),
            }
        } else {
            let twin = want.as_ref().map_or(false, |p| is(p));
            ensure!(same || twin, "e17:others", "{}({}) changed the price of {} to {} (answer {})", e.method, e.args, t, x["degen_price"], ans);
        }
    }
    // limits are what the owner makes them
    for id in 0..DPOOLS.len() as u64 {
        let mine = a["pool_id"] == id && e.ok && e.recv == EX;
        let want = match &e.method[..] {
            "add_degen_pool_limit" | "update_degen_pool_limit" if mine => Some(bigv(&a["degen_pool_limit_info"]["tvl_limit"])),
            "remove_pool_limit" if mine => None,
            _ => limit_of(&v, id),
        };
        ensure!(limit_of(&pv, id) == want, "e17:limits", "{}({}): the limit of pool {} is {:?}, should be {:?}", e.method, e.args, id, limit_of(&pv, id), want);
    }
    // prices gate the pools
    let ok = dg_valid(pre, &v);
    let fresh = |id: usize| DPOOLS[id].iter().all(|i| ok[*i]);
    if e.recv != EX || e.pred != BOB {
        let zap = log.iter().find(|x| x.recv == EX && x.method == "ft_on_transfer" && x.ok);
        if let Some(z) = zap {
            let za: Value = serde_json::from_str(&z.args).unwrap_or_default();
            let m: Value = serde_json::from_str(za["msg"].as_str().unwrap_or("")).unwrap_or_default();
            for i in m["add_liquidity_infos"].as_array().cloned().unwrap_or_default() {
                let id = i["pool_id"].as_u64().unwrap();
                added(&v, &pv, &m0, id, fresh(id as usize), true, z)?;
            }
        }
        return Ok(());
    }
    match &e.method[..] {
        "swap" => {
            let id = a["actions"][0]["pool_id"].as_u64().unwrap() as usize;
            ensure!(e.ok == fresh(id), "e17:swap", "{}({}) was {} while prices were {} ({})", e.method, e.args, if e.ok { "accepted" } else { "refused" }, if fresh(id) { "valid" } else { "expired" }, e.err);
            if e.ok {
                let x = &a["actions"][0];
                let prices: Vec<Value> = DPOOLS[id].iter().map(|i| m0[DTOK[*i]]["degen_price"].clone()).collect();
                let q = v.get("get_degen_return", json!({"pool_id": id, "token_in": x["token_in"], "token_out": x["token_out"], "amount_in": x["amount_in"], "degens": prices}));
                let out = x["token_out"].as_str().unwrap();
                let got = deposit_v(&pv, BOB, out) - deposit_v(&v, BOB, out);
                ensure!(u(&q) == got, "e17:price", "{}({}) paid {}, the recorded prices give {}", e.method, e.args, got, q);
            }
        }
        "remove_liquidity_by_tokens" => {
            let id = a["pool_id"].as_u64().unwrap() as usize;
            ensure!(e.ok == fresh(id), "e17:take", "{}({}) was {} while prices were {} ({})", e.method, e.args, if e.ok { "accepted" } else { "refused" }, if fresh(id) { "valid" } else { "expired" }, e.err);
        }
        "remove_liquidity" => ensure!(e.ok, "e17:exit", "{}({}) was refused: {}", e.method, e.args, e.err),
        "add_stable_liquidity" => {
            let id = a["pool_id"].as_u64().unwrap();
            let am: Vec<BigInt> = a["amounts"].as_array().unwrap().iter().map(bigv).collect();
            let o = pool(&v, id);
            let then: BigInt = DPOOLS[id as usize].iter().enumerate().map(|(k, i)| tvl_part(&m0, *i, &(big(o.amounts[k]) + &am[k]))).sum();
            // one unit either way is rounding of the amounts shown
            let near = limit_of(&v, id).map_or(false, |l| (&then - &l).abs() <= big(2));
            let may = fresh(id as usize) && limit_of(&v, id).map_or(true, |l| then <= l);
            ensure!(near || e.ok == may, "e17:add", "{}({}) was {} ({}); prices {}, value {} with a limit of {:?}", e.method, e.args, if e.ok { "accepted" } else { "refused" }, e.err, if fresh(id as usize) { "valid" } else { "expired" }, then, limit_of(&v, id));
            added(&v, &pv, &m0, id, fresh(id as usize), e.ok, e)?;
        }
        _ => {}
    }
    Ok(())
}
/// After liquidity was added the pool is within its limit, at valid prices.
fn added(v: &Viewer, pv: &Viewer, m0: &Value, id: u64, fresh: bool, ok: bool, e: &Exec) -> R {
    if !ok {
        return Ok(());
    }
    ensure!(fresh, "e17:expired", "{}({}) added liquidity to pool {} at expired prices", e.method, e.args, id);
    if let Some(l) = limit_of(v, id) {
        let o = pool(pv, id);
        let now: BigInt = DPOOLS[id as usize].iter().enumerate().map(|(k, i)| tvl_part(m0, *i, &big(o.amounts[k]))).sum();
        ensure!(now <= &l + 2, "e17:limit", "{}({}) left pool {} with {}, its limit is {}", e.method, e.args, id, now, l);
    }
    Ok(())
}

fn dg_updates() -> Vec<Op> {
    let mut ops: Vec<Op> = DTOK.iter().map(|t| txn(&format!("update {}", short(t)), CAROL, EX, "update_degen_token_price", json!({ "token_id": t }), 0)).collect();
    for (n, l) in [("all", vec![0, 1, 2, 3]), ("both of the price oracle", vec![0, 2]), ("one of each", vec![3, 2]), ("usd alone", vec![1])] {
        let ids: Vec<&str> = l.iter().map(|i| DTOK[*i]).collect();
        ops.push(txn(&format!("update {}", n), CAROL, EX, "batch_update_degen_token_price", json!({ "token_ids": ids }), 0));
    }
    ops
}
fn dg_uses() -> Vec<Op> {
    let mut ops = vec![];
    for (id, p) in DPOOLS.iter().enumerate() {
        let (a, b) = (DTOK[p[0]], DTOK[p[1]]);
        let (x, y) = (10u128.pow(DDEC[p[0]]), 10u128.pow(DDEC[p[1]]));
        let n = p.len();
        let of = |a: u128, b: u128| {
            let mut v = vec![0; n];
            (v[0], v[1]) = (a, b);
            strs(&v)
        };
        ops.push(txn(&format!("swap in {}", id), BOB, EX, "swap", json!({"actions": [act(id as u64, a, b, Some(7 * x + 1), 0)], "skip_degen_price_sync": true}), 1));
        ops.push(txn(&format!("swap back in {} and sync", id), BOB, EX, "swap", json!({"actions": [act(id as u64, b, a, Some(7 * y + 1), 0)]}), 1));
        ops.push(txn(&format!("add to {}", id), BOB, EX, "add_stable_liquidity", json!({"pool_id": id, "amounts": of(5 * x + 1, 0), "min_shares": "0"}), NEAR / 50));
        ops.push(txn(&format!("add much to {}", id), BOB, EX, "add_stable_liquidity", json!({"pool_id": id, "amounts": of(1_000 * x + 1, 3_000 * y), "min_shares": "0"}), NEAR / 50));
        ops.push(txn(&format!("take from {}", id), BOB, EX, "remove_liquidity_by_tokens", json!({"pool_id": id, "amounts": of(0, 5 * y + 1), "max_burn_shares": (u128::MAX / 4).to_string()}), 1));
        ops.push(txn(&format!("leave {}", id), BOB, EX, "remove_liquidity", json!({"pool_id": id, "shares": (E24 + 7).to_string(), "min_amounts": vec!["0"; n]}), 1));
    }
    ops
}
fn dg_zap() -> Op {
    ft_call("zap into 0", BOB, T1, 900 * E18, json!({"hot_zap_actions": [act(0, T1, USD, Some(400 * E18), 0)], "add_liquidity_infos": [{"pool_id": 0, "amounts": strs(&[400 * E18, 1_000 * E6]), "min_shares": "0"}]}))
}

/// A step of an interleaving: prices change only where a proper answer arrives.
fn dg_arrival(env: &Env, pre: &World, post: &World, log: &[Exec]) -> R {
    let (v, pv) = (env.view(pre, EX), env.view(post, EX));
    let (m0, m1) = (v.get("list_degen_tokens", json!({})), pv.get("list_degen_tokens", json!({})));
    let cfg = v.get("list_degen_oracle_configs", json!({}));
    let cb = log.iter().find(|e| e.recv == EX && e.pred == EX && !e.inputs.is_empty());
    // what the answer allows, whichever request it belongs to
    let mut may: BTreeMap<String, BigInt> = BTreeMap::new();
    if let Some(Some(b)) = cb.and_then(|c| c.vals.first().cloned()) {
        may.extend(dg_answer("get_price_data", &json!({}), &b, post.ts, &m0, &cfg));
        may.extend(dg_answer("get_price", &json!({ "price_identifier": PID }), &b, post.ts, &m0, &cfg));
        may.extend(dg_answer("list_prices_no_older_than", &json!({}), &b, post.ts, &m0, &cfg));
    }
    let mut hit = may.is_empty();
    for t in DTOK {
        let (x, y) = (&m1[*t], &m0[*t]);
        let is = may.get(*t).map_or(false, |p| bigv(&x["degen_price"]) == *p && u(&x["last_update_ts"]) == post.ts as u128);
        hit |= is;
        let same = x["degen_price"] == y["degen_price"] && x["last_update_ts"] == y["last_update_ts"];
        ensure!(same || is, "e17:arrival", "the price of {} became {} of {}; the answer that arrived allows {:?}", t, x["degen_price"], x["last_update_ts"], may.get(*t));
    }
    ensure!(hit, "e17:lost", "a proper answer arrived and no price was recorded: {:?}", may);
    Ok(())
}

pub fn e17(cx: &Ctx) -> Mk {
    let th = cx.thorough;
    let mut v: Mk = vec![];
    v.push(mk(cx, "every kind of answer", move |cx| {
        let mut s = dg_setup(cx);
        dg_menus(&mut s, 99);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = dg_updates();
        sc.ops.extend(dg_uses());
        sc.ops.push(wait("wait half the validity", EXPIRE / 2));
        sc.ops.push(wait("wait a moment", 1));
        sc.ops.push(dg_zap());
        sc.depth = if th { 3 } else { 2 };
        sc.step = Box::new(dg_step);
        sc.inv = Box::new(dg_inv);
        sc
    }));
    v.push(mk(cx, "prices expiring, oracles changed", move |cx| {
        let mut s = dg_setup(cx);
        dg_menus(&mut s, if th { 2 } else { 1 });
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = dg_updates();
        sc.ops.extend(dg_uses());
        sc.ops.push(wait("wait half the validity", EXPIRE / 2));
        sc.ops.push(wait("wait the validity and a moment", EXPIRE + 1));
        sc.ops.push(wait("wait a moment", 1));
        sc.ops.push(txn("second oracle, half the validity", OWNER, EX, "update_degen_oracle_config", json!({ "degen_oracle_config": po_cfg(ORA2, EXPIRE / 2) }), 1));
        sc.ops.push(txn("pyth valid twice as long", OWNER, EX, "update_degen_oracle_config", json!({"degen_oracle_config": {"PythOracle": {"oracle_id": PYTH, "expire_ts": (2 * EXPIRE).to_string(), "pyth_price_valid_duration_sec": 10}}}), 1));
        sc.depth = if th { 5 } else { 4 };
        sc.step = Box::new(dg_step);
        sc.inv = Box::new(dg_inv);
        sc
    }));
    v.push(mk(cx, "limits on the value of a pool", move |cx| {
        let mut s = dg_setup(cx);
        dg_menus(&mut s, 2);
        let now: u128 = u(&s.env.view(&s.w, EX).get("get_degen_pool_tvl", json!({ "pool_id": 0 })));
        let mut sc = Scenario::new("", s.env, s.w);
        for (n, l) in [("reached", now), ("a little above", now + 1_500), ("above", now + 7_000)] {
            let i = json!({"tvl_limit": l.to_string()});
            sc.ops.push(txn(&format!("limit {}", n), OWNER, EX, "add_degen_pool_limit", json!({"pool_id": 0, "degen_pool_limit_info": i}), 1));
            sc.ops.push(txn(&format!("limit now {}", n), OWNER, EX, "update_degen_pool_limit", json!({"pool_id": 0, "degen_pool_limit_info": i}), 1));
        }
        sc.ops.push(txn("no limit", OWNER, EX, "remove_pool_limit", json!({"pool_id": 0}), 1));
        sc.ops.extend(dg_uses().into_iter().take(6));
        sc.ops.push(dg_zap());
        sc.ops.push(txn("update prices", CAROL, EX, "batch_update_degen_token_price", json!({"token_ids": [T1, USD]}), 0));
        sc.ops.push(wait("wait the validity", EXPIRE));
        sc.ops.push(wait("wait a moment", 1));
        sc.depth = if th { 5 } else { 4 };
        sc.step = Box::new(dg_step);
        sc.inv = Box::new(dg_inv);
        sc
    }));
    v.push(mk(cx, "answers arriving in any order", move |cx| {
        let mut s = dg_setup(cx);
        dg_menus(&mut s, 3);
        let mut sc = Scenario::new("", s.env, s.w);
        let mut ups = dg_updates();
        ups.truncate(6);
        ups.remove(2);
        sc.ops = ups;
        sc.ops.push(wait("wait a minute", 61 * SEC));
        sc.interleave = true;
        sc.max_pending = if th { 5 } else { 4 };
        sc.depth = if th { 7 } else { 5 };
        sc.step = Box::new(dg_arrival);
        sc.inv = Box::new(dg_inv);
        sc
    }));
    v
}
