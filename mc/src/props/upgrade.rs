//! E25 upgrades: the state an earlier release left behind keeps its meaning.
use super::*;
use crate::chain::*;
use crate::ensure;
use crate::exh::*;
use crate::explore::*;
use crate::ops::*;
use crate::props::custody::tokens_may_fail;
use crate::rates::*;
use crate::vm::*;
use crate::Ctx;
use serde_json::{json, Value};
use std::sync::Arc;

/// The published releases whose state this one reads, oldest first.
const RELEASES: &[&str] = &[
    "_v191", "_v192", "_v193", "_V194", "_v195", "_v196", "_v197", "_v198", "_v199", "_v1910", "_v1911", "_v1912", "_v1913", "_v1914", "_v1915", "_v1916", "",
];
const NEW: &str = "this tree";
const WHO: &[&str] = &[OWNER, ALICE, BOB, CAROL, REF, GUARD, EX, BOOST, BURROW];
const TOKS: &[&str] = &[T1, T2, T3, WNEAR, USD, ST];
const SEED: u128 = 7_000 * E18 + 13;

fn release(name: &str) -> Arc<Code> {
    Arc::new(Code::load(EX, &format!("/repo/releases/ref_exchange_release{}.wasm", name)))
}
fn new_code(w: &World, env: &Env) -> bool {
    w.deployed.get(EX).map(|i| env.library[*i].0 == NEW).unwrap_or(false)
}
fn can(s: &Sb, m: &str) -> bool {
    s.env.code(&s.w, EX).unwrap().exports.iter().any(|x| x == m)
}
/// An owner's call, if this release has it.
fn one(s: &mut Sb, m: &str, a: Value) {
    if can(s, m) {
        s.one(OWNER, m, a);
    }
}
fn upgrade(s: &mut Sb, to: &str) {
    let mut ch = Chooser::new(vec![]);
    let (_, e) = s.env.submit_raw(&mut s.w, &mut ch, OWNER, EX, "upgrade", to.as_bytes().to_vec(), 0);
    let mut ex = vec![e];
    s.env.settle(&mut s.w, &mut ch, &mut ex);
    s.env.cleanup(&mut s.w);
    for e in ex {
        assert!(e.ok, "SETUP_FAILED upgrade to {}: {} {}", to, e.method, e.err);
    }
}

// ---- what is visible

fn seen(s: &Viewer, code: &Code, pools: u64) -> Vec<(String, Value)> {
    let mut out = vec![];
    let mut q = |m: &str, a: Value| {
        if code.exports.iter().any(|x| x == m) {
            if let Ok(r) = s.try_get(m, a.clone()) {
                out.push((format!("{}({})", m, a), r));
            }
        }
    };
    let page = json!({"from_index": 0, "limit": 100});
    for m in [
        "metadata", "get_owner", "get_guardians", "get_frozenlist_tokens", "get_whitelisted_tokens", "list_referrals", "list_rated_tokens", "list_degen_tokens",
        "list_degen_oracle_configs", "get_number_of_pools", "get_client_echo_token_id_whitelist", "get_client_echo_sender_id_whitelist", "get_secure_sender_whitelist",
        "storage_balance_bounds", "get_pools", "list_pool_volumes", "get_pool_limit_paged", "list_pool_twap_info_view", "get_tokens_paged",
    ] {
        q(m, page.clone());
    }
    for p in 0..pools {
        for m in [
            "get_pool", "get_pool_fee", "get_pool_volumes", "get_pool_total_shares", "get_pool_share_price", "get_stable_pool", "get_rated_pool", "get_degen_pool",
            "get_pool_twap_info_view", "get_unit_share_token_amounts", "get_degen_pool_tvl", "get_pool_limit_by_pool_id",
        ] {
            q(m, json!({ "pool_id": p }));
        }
        q("mft_total_supply", json!({"token_id": format!(":{}", p)}));
        q("mft_metadata", json!({"token_id": format!(":{}", p)}));
        q("get_unit_lpt_assets", json!({ "pool_ids": [p] }));
        for a in WHO {
            q("get_pool_shares", json!({"pool_id": p, "account_id": a}));
            q("mft_balance_of", json!({"token_id": format!(":{}", p), "account_id": a}));
            q("mft_has_registered", json!({"token_id": format!(":{}", p), "account_id": a}));
        }
    }
    for a in WHO {
        for m in ["get_deposits", "get_user_whitelisted_tokens", "get_user_storage_state", "storage_balance_of", "get_shadow_records", "get_account_basic_info", "list_lostfound_tokens"] {
            q(m, json!({ "account_id": a }));
        }
    }
    out
}
/// Everything the old answer said, the new one says too.
fn covers(new: &Value, old: &Value) -> bool {
    match (new, old) {
        (Value::Object(n), Value::Object(o)) => o.iter().all(|(k, x)| k == "version" || n.get(k).map(|y| covers(y, x)).unwrap_or(x.is_null())),
        // lists of names have no order to keep
        (Value::Array(n), Value::Array(o)) if o.iter().chain(n).all(|x| x.is_string()) => {
            let sort = |v: &Vec<Value>| {
                let mut v: Vec<String> = v.iter().map(|x| x.to_string()).collect();
                v.sort();
                v
            };
            sort(n) == sort(o)
        }
        (Value::Array(n), Value::Array(o)) => n.len() == o.len() && o.iter().zip(n).all(|(x, y)| covers(y, x)),
        _ => new == old,
    }
}

fn judge(env: &Env, pre: &World, post: &World, log: &[Exec]) -> R {
    for e in log {
        if e.recv != EX {
            continue;
        }
        if e.pred == EX && (e.method == "migrate" || e.method == "metadata") {
            ensure!(e.ok, "e25:refused", "the upgrade by the owner failed: {}", e.err);
        }
        if e.method == "upgrade" && e.pred != EX {
            ensure!(e.ok == (e.pred == OWNER), "e25:who", "upgrade by {} was {}: {}", e.pred, if e.ok { "accepted" } else { "refused" }, e.err);
        }
        if ["migrate", "new"].contains(&&e.method[..]) && e.pred != EX {
            ensure!(!e.ok, "e25:who", "{} by {} was accepted", e.method, e.pred);
        }
    }
    let was = pre.deployed.get(EX);
    if post.deployed.get(EX) != was || log.iter().any(|e| e.recv == EX && e.pred == EX && e.method == "metadata") {
        let (v, p) = (env.view(pre, EX), env.view(post, EX));
        let (a, b) = (env.code(pre, EX).unwrap(), env.code(post, EX).unwrap());
        let n = u(&v.get("get_number_of_pools", json!({}))) as u64;
        let after = seen(&p, b, n);
        for (q, old) in seen(&v, a, n) {
            match after.iter().find(|x| x.0 == q) {
                None => ensure!(false, "e25:lost", "{} was {} and can no longer be answered after the upgrade", q, old),
                Some((_, new)) => ensure!(covers(new, &old), "e25:changed", "the upgrade changed {} from {} to {}", q, old, new),
            }
        }
        ensure!(pre.tok == post.tok, "e25:tokens", "the upgrade moved tokens");
        ensure!(pre.near == post.near, "e25:near", "the upgrade moved NEAR");
    }
    Ok(())
}
fn inv(env: &Env, w: &World) -> R {
    if !new_code(w, env) {
        return Ok(());
    }
    let v = env.view(w, EX);
    // earlier releases could leave a unit of rounding behind
    for (_, gap, msg) in custody_gap(w, &v, WHO, TOKS) {
        ensure!(gap >= big(0) && gap <= big(8), "e25:custody", "{}", msg);
    }
    supply_inv(&v, WHO, u(&v.get("get_number_of_pools", json!({}))) as u64)
}

/// One after the other, everybody releases pledges and takes out shares, tokens and lost tokens.
fn drain(x: &mut X) -> R {
    if !x.w.quiet() || !new_code(&x.w, x.env) {
        return x.skip();
    }
    let run = |x: &mut X, who: &str, m: &str, a: Value| {
        let what = format!("{} {} {}", who, m, a);
        let o = x.call(who, EX, m, a, 1);
        ensure!(o.ok && o.execs.iter().all(|e| e.ok), "e25:drain", "after the upgrade {} was refused: {}", what, o.execs.iter().map(|e| e.err.clone()).collect::<Vec<_>>().join(" "));
        Ok(())
    };
    let v = x.view(EX);
    let n = u(&v.get("get_number_of_pools", json!({}))) as u64;
    let paused = v.get("metadata", json!({}))["state"] == json!("Paused");
    if paused {
        run(x, OWNER, "change_state", json!({"state": "Running"}))?;
    }
    if v.get("get_frozenlist_tokens", json!({})) == json!([T3]) {
        run(x, OWNER, "remove_frozenlist_tokens", json!({ "tokens": [T3] }))?;
    }
    for who in [ALICE, BOB, CAROL] {
        if !registered(&x.view(EX), who) {
            continue;
        }
        x.call(who, EX, "storage_deposit", json!({}), NEAR / 10);
        for (p, (farm, lend)) in shadow(&x.view(EX), who) {
            for (a, k) in [("FromFarming", farm), ("FromBurrowland", lend)] {
                if k > 0 {
                    let o = x.call(who, EX, "shadow_action", json!({"action": a, "pool_id": p, "msg": ""}), 1);
                    if o.execs.iter().any(|e| !e.ok && e.recv != EX) {
                        // the farm or the market keeps the pledge
                        return x.skip();
                    }
                    ensure!(o.ok && o.execs.iter().all(|e| e.ok), "e25:drain", "after the upgrade {} of {} was refused: {}", a, who, o.err);
                }
            }
        }
        ensure!(shadow(&x.view(EX), who).is_empty(), "e25:drain", "{} still has pledges: {:?}", who, shadow(&x.view(EX), who));
        for p in 0..n {
            let o = pool(&x.view(EX), p);
            let s = shares(&x.view(EX), p, who) / 2;
            if s > 0 {
                let before = deposits(&x.view(EX), who);
                run(x, who, "remove_liquidity", json!({"pool_id": p, "shares": s.to_string(), "min_amounts": vec!["0"; o.tokens.len()]}))?;
                let after = deposits(&x.view(EX), who);
                for (i, t) in o.tokens.iter().enumerate() {
                    let got = big(after.get(t).cloned().unwrap_or(0)) - before.get(t).cloned().unwrap_or(0);
                    let fair = big(o.amounts[i]) * s / o.supply;
                    ensure!(got <= &fair + 1 && got >= &fair - 1, "e25:worth", "{} of {} shares of pool {} gave {} {}, not {}", s, o.supply, p, got, t, fair);
                }
            }
        }
        for (t, k) in deposits(&x.view(EX), who) {
            if k > 0 {
                let b = big(x.w.bal(&t, who));
                let near = x.w.near_of(who);
                run(x, who, "withdraw", json!({"token_id": t, "amount": "0", "skip_unwrap_near": true}))?;
                ensure!(big(x.w.bal(&t, who)) - b == big(k), "e25:drain", "{} withdrew {} {} and did not get it", who, k, t);
                ensure!(near - x.w.near_of(who) == 1, "e25:drain", "{} paid NEAR for a withdrawal", who);
            }
        }
        for (t, k) in lostfounds(&x.view(EX), who) {
            let b = big(x.w.bal(&t, who));
            run(x, who, "claim_lostfound", json!({ "token_id": t }))?;
            ensure!(big(x.w.bal(&t, who)) - b == big(k), "e25:drain", "{} claimed {} {} and did not get it", who, k, t);
        }
        let left: Vec<String> = deposits(&x.view(EX), who).keys().cloned().collect();
        if !left.is_empty() {
            run(x, who, "unregister_tokens", json!({ "token_ids": left }))?;
        }
        let (b, near) = (x.view(EX).get("storage_balance_of", json!({ "account_id": who })), x.w.near_of(who));
        run(x, who, "storage_unregister", json!({}))?;
        ensure!(x.w.near_of(who) - near == u(&b["total"]) as i128 - 1, "e25:drain", "{} closed the account with {} and got {}", who, b, x.w.near_of(who) - near);
    }
    inv(x.env, &x.w)
}

// ---- records of the oldest formats, which no binary at hand can still write

struct Rd<'a>(&'a [u8], usize);
impl<'a> Rd<'a> {
    fn n(&mut self, k: usize) -> &'a [u8] {
        let r = &self.0[self.1..self.1 + k];
        self.1 += k;
        r
    }
    fn u32(&mut self) -> usize {
        let b = self.n(4);
        u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize
    }
    fn bytes(&mut self) {
        let k = self.u32();
        self.n(k);
    }
}
fn bstr(s: &str) -> Vec<u8> {
    let mut v = (s.len() as u32).to_le_bytes().to_vec();
    v.extend(s.as_bytes());
    v
}
/// Rewrites an account record written by release 1.9.1 to the first or second format, with tokens kept
/// inside the record.
fn age(s: &mut Sb, who: &'static str, format: u8, inside: &[(&str, u128)]) {
    let mut key = vec![1u8];
    key.extend(bstr(who));
    let kv = s.w.kv.get_mut(EX).unwrap();
    let rec = kv.map.get(&key[..]).expect("ENGINE no account record").to_vec();
    let mut r = Rd(&rec, 0);
    assert!(r.n(1) == [2], "ENGINE account record format");
    let near = r.n(16).to_vec();
    assert!(r.u32() == 0, "ENGINE account record format");
    let a = r.1;
    // an unordered map: two prefixed vectors and an index prefix
    r.bytes();
    r.n(8);
    r.bytes();
    r.n(8);
    r.bytes();
    let map = rec[a..r.1].to_vec();
    let used = r.n(8).to_vec();
    let mut out = vec![format];
    out.extend(near);
    out.extend((inside.len() as u32).to_le_bytes());
    for (t, n) in inside {
        out.extend(bstr(t));
        out.extend(n.to_le_bytes());
    }
    if format == 1 {
        out.extend(map);
    }
    out.extend(used);
    kv.set(&key, &out);
    for (t, n) in inside {
        s.mint(t, EX, *n);
    }
}

// ---- histories

fn world(cx: &Ctx, from: &str, legacy: bool) -> Sb {
    let mut env = Env::new();
    env.library.push((NEW.into(), cx.ex.clone()));
    env.codes.insert(EX, release(from));
    for t in [T1, T2, T3] {
        env.actors.insert(t.into(), Actor::Token { fail: false });
    }
    env.actors.insert(WNEAR.into(), Actor::Wnear { fail: false });
    env.actors.insert(BOOST.into(), Actor::Shadow);
    env.actors.insert(BURROW.into(), Actor::Shadow);
    let mut w = World::new();
    w.kv.insert(EX, Kv::new());
    w.add_near(EX, 1000 * NEAR as i128);
    let mut s = Sb { env, w };
    s.must(OWNER, EX, "new", json!({"owner_id": OWNER, "boost_farm_id": BOOST, "burrowland_id": BURROW, "exchange_fee": 1600, "referral_fee": 400}), 0);
    one(&mut s, "modify_wnear_id", json!({ "wnear_id": WNEAR }));
    one(&mut s, "extend_guardians", json!({"guardians": [GUARD]}));
    one(&mut s, "extend_whitelisted_tokens", json!({"tokens": [T1, T2, T3, WNEAR]}));
    one(&mut s, "extend_auto_whitelisted_postfix", json!({"postfixes": ["bridge.test"]}));
    one(&mut s, "modify_admin_fee", json!({"admin_fee_bps": 1700}));
    one(&mut s, "insert_referral", json!({"referral_id": REF, "fee_bps": 2500}));
    tokens(&mut s, &[USD, ST]);
    for a in [OWNER, ALICE, BOB, CAROL] {
        s.storage(a, NEAR / 10);
        for t in TOKS {
            s.mint(t, a, SEED);
        }
    }
    for (t, e) in [(T1, E18), (T2, E18), (T3, E18), (WNEAR, E24), (ST, E24)] {
        s.deposit(CAROL, t, 3_000_000 * e + 7);
    }
    s.deposit(CAROL, USD, 3_000_000 * E6 + 7);
    if !legacy {
        s.deposit(ALICE, T1, 1_000 * E18);
        s.deposit(ALICE, T2, 2_000 * E18);
        s.deposit(BOB, T1, 3_000 * E18);
    }
    s.deposit(BOB, T2, 4_000 * E18);
    s.deposit(BOB, WNEAR, 5_000 * E18);
    s.simple_pool(T1, T2, 30);
    s.stable_pool(&[T2, USD, T3], &[18, 6, 18], 25, 240);
    rate_quotes(&mut s, 12 * E24 / 10, E24, E24);
    s.one(OWNER, "register_rated_token", json!({"rate_type": "STNEAR", "token_id": ST}));
    s.must(CAROL, EX, "update_token_rate", json!({ "token_id": ST }), 0);
    s.pool_of("add_rated_swap_pool", &[WNEAR, ST], &[24, 24], 20, 100);
    if can(&s, "add_degen_swap_pool") {
        degen_setup(&mut s, 35_000, 100_000_000);
        s.pool_of("add_degen_swap_pool", &[T1, USD], &[18, 6], 15, 30);
    }
    let n = if can(&s, "add_degen_swap_pool") { 4 } else { 3 };
    s.add_liq(CAROL, 0, &[100_000 * E18 + 1, 300_000 * E18 + 2]);
    s.add_stable(CAROL, 1, &[50_000 * E18 + 5, 51_000 * E6 + 1, 49_000 * E18]);
    s.add_stable(CAROL, 2, &[1_000 * E24, 900 * E24 + 11]);
    if n == 4 {
        s.add_stable(CAROL, 3, &[30_000 * E18 + 5, 110_000 * E6 + 1]);
        one(&mut s, "add_degen_pool_limit", json!({"pool_id": 3, "degen_pool_limit_info": {"tvl_limit": (1_000_000_000 * E24).to_string()}}));
    }
    for a in [ALICE, BOB, REF] {
        for p in 0..n {
            s.must(a, EX, "mft_register", json!({"token_id": format!(":{}", p), "account_id": a}), NEAR / 10);
            if a != REF {
                s.must(CAROL, EX, "mft_transfer", json!({"token_id": format!(":{}", p), "receiver_id": a, "amount": (100_000_000 + p as u128).to_string()}), 1);
            }
        }
    }
    s.must(CAROL, EX, "swap", json!({"actions": [act(0, T1, T2, Some(77 * E18 + 1), 0), act(1, T2, USD, None, 0)], "referral_id": REF}), 1);
    s.must(CAROL, EX, "swap", json!({"actions": [act(2, ST, WNEAR, Some(7 * E18 + 1), 0)]}), 1);
    s.must(CAROL, EX, "shadow_action", json!({"action": "ToFarming", "pool_id": 0, "amount": "12345", "msg": ""}), NEAR / 100);
    s.must(CAROL, EX, "shadow_action", json!({"action": "ToBurrowland", "pool_id": 1, "amount": "54321", "msg": ""}), NEAR / 100);
    if !legacy {
        s.must(BOB, EX, "shadow_action", json!({"action": "ToFarming", "pool_id": 0, "amount": "777", "msg": ""}), NEAR / 100);
    }
    s.one(GUARD, "register_pool_twap_record", json!({"pool_id": 0}));
    s.one(OWNER, "modify_cumulative_info_record_interval_sec", json!({"record_interval_sec": 60}));
    for _ in 0..3 {
        s.w.ts += 61 * SEC;
        s.must(CAROL, EX, "sync_pool_twap_record", json!({"pool_id": 0}), 0);
    }
    s.one(OWNER, "stable_swap_ramp_amp", json!({"pool_id": 1, "future_amp_factor": 480, "future_amp_time": (s.w.ts + 2 * DAY).to_string()}));
    s.w.ts += DAY / 48;
    one(&mut s, "extend_client_echo_token_id_whitelist", json!({"token_ids": [T1]}));
    if can(&s, "extend_secure_sender_whitelist") {
        one(&mut s, "extend_client_echo_token_id_whitelist", json!({"token_ids": ["*.bridge.test"]}));
    }
    one(&mut s, "extend_client_echo_sender_id_whitelist", json!({"sender_ids": [BOB]}));
    one(&mut s, "extend_secure_sender_whitelist", json!({"sender_ids": ["router.test"]}));
    s.one(GUARD, "extend_frozenlist_tokens", json!({"tokens": [T3]}));
    if legacy {
        age(&mut s, ALICE, 0, &[(T1, 1_000 * E18 + 3), (T2, 2_000 * E18 + 5), (T3, 99), (ST, 0)]);
        age(&mut s, BOB, 1, &[(T1, 3_000 * E18 + 7), (USD, 11_000_001)]);
    }
    s
}

/// Common operations of all releases.
fn ops() -> Vec<Op> {
    let up = |who: &'static str| {
        op(format!("{} upgrades", short(who)), move |x| {
            x.call_raw(who, EX, "upgrade", NEW.as_bytes().to_vec(), 0);
            Ok(())
        })
    };
    let mut o = vec![up(OWNER), up(GUARD), up(ALICE)];
    o.push(tx(OWNER, EX, "migrate", json!({}), 0));
    o.push(tx(ALICE, EX, "migrate", json!({}), 0));
    o.push(tx(ALICE, EX, "new", json!({"owner_id": ALICE, "boost_farm_id": ALICE, "burrowland_id": ALICE, "exchange_fee": 1, "referral_fee": 1}), 0));
    o
}
fn user_ops() -> Vec<Op> {
    vec![
        deposit_op(ALICE, T1, 100 * E18 + 1),
        deposit_op(BOB, T3, 500),
        deposit_op(BOB, USD, 77),
        withdraw_op(ALICE, T1, 10 * E18 + 1, false, false),
        withdraw_op(ALICE, T2, 0, true, false),
        withdraw_op(BOB, T1, 0, true, false),
        withdraw_op(BOB, WNEAR, 777, false, false),
        tx(ALICE, EX, "swap", json!({"actions": [act(0, T1, T2, Some(3 * E18 + 1), 1)]}), 1),
        tx(BOB, EX, "swap", json!({"actions": [act(0, T1, T2, Some(2 * E18), 0), act(1, T2, USD, None, 0)], "referral_id": REF}), 1),
        tx(CAROL, EX, "swap", json!({"actions": [act(2, WNEAR, ST, Some(5 * E18), 0)]}), 1),
        tx(ALICE, EX, "add_liquidity", json!({"pool_id": 0, "amounts": strs(&[E18, 3 * E18])}), NEAR / 100),
        tx(BOB, EX, "remove_liquidity", json!({"pool_id": 2, "shares": "1000001", "min_amounts": ["0", "0"]}), 1),
        tx(ALICE, EX, "shadow_action", json!({"action": "ToFarming", "pool_id": 0, "amount": "500", "msg": ""}), NEAR / 100),
        tx(ALICE, EX, "shadow_action", json!({"action": "ToBurrowland", "pool_id": 0, "msg": ""}), NEAR / 100),
        tx(CAROL, EX, "shadow_action", json!({"action": "FromFarming", "pool_id": 0, "msg": ""}), 1),
        tx(ALICE, EX, "register_tokens", json!({"token_ids": [ST]}), 1),
        tx(ALICE, EX, "register_tokens", json!({"token_ids": [T1, T3]}), 1),
        ft_call("instant t2>t1", ALICE, T2, 50 * E18, json!({"actions": [act(0, T2, T1, None, 0)]})),
        tx(BOB, EX, "unregister_tokens", json!({"token_ids": [ST]}), 1),
        tx(ALICE, EX, "unregister_tokens", json!({"token_ids": [T3]}), 1),
        tx(BOB, EX, "unregister_tokens", json!({"token_ids": [USD]}), 1),
        withdraw_op(ALICE, T2, 1_000, true, false),
        tx(ALICE, EX, "storage_unregister", json!({}), 1),
        tx(ALICE, EX, "storage_withdraw", json!({}), 1),
        tx(ALICE, EX, "mft_transfer", json!({"token_id": ":0", "receiver_id": BOB, "amount": "999"}), 1),
        tx(GUARD, EX, "change_state", json!({"state": "Paused"}), 1),
    ]
}
pub fn e25(cx: &Ctx) -> Mk {
    let th = cx.thorough;
    let mut m = vec![];
    for r in RELEASES {
        let r = *r;
        if !th && !["_v191", "_V194", "_v199", "_v1913", ""].contains(&r) {
            continue;
        }
        let legacy = r == "_v191";
        let name = if r.is_empty() { "1.9.17".to_string() } else { format!("{}.{}.{}", &r[2..3], &r[3..4], &r[4..]) };
        m.push(mk(cx, &format!("from {}", name), move |cx| {
            let s = world(cx, r, legacy);
            let mut sc = Scenario::new("", s.env, s.w);
            sc.ops = ops();
            sc.ops.extend(user_ops());
            sc.ops.push(op("everybody leaves", drain));
            sc.depth = if th { 4 } else { 3 };
            sc.inv = Box::new(inv);
            sc.step = Box::new(judge);
            sc
        }));
        m.push(mk(cx, &format!("from {}, in flight", name), move |cx| {
            let mut s = world(cx, r, legacy);
            tokens_may_fail(&mut s);
            let mut sc = Scenario::new("", s.env, s.w);
            sc.ops = ops().into_iter().take(1).collect();
            sc.ops.extend(user_ops().into_iter().filter(|o| ["deposit", "withdraw", "Farming", "Burrow", "instant"].iter().any(|k| o.label.contains(k))));
            sc.interleave = true;
            sc.max_pending = 2;
            sc.depth = if th { 7 } else { 5 };
            sc.inv = Box::new(inv);
            sc.step = Box::new(judge);
            sc
        }));
    }
    m.push(mk(cx, "accounts of old versions, in flight", move |cx| {
        let mut s = world(cx, RELEASES[0], true);
        upgrade(&mut s, NEW);
        tokens_may_fail(&mut s);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = user_ops().into_iter().filter(|o| ["deposit", "withdraw", "instant", "register"].iter().any(|k| o.label.contains(k))).collect();
        sc.interleave = true;
        sc.max_pending = 2;
        sc.depth = if th { 7 } else { 5 };
        sc.inv = Box::new(inv);
        sc.step = Box::new(judge);
        sc
    }));
    m.push(mk(cx, "through all releases", move |cx| {
        let mut s = world(cx, RELEASES[0], true);
        for r in &RELEASES[1..] {
            s.env.library.push((format!("release {}", r), release(r)));
            upgrade(&mut s, &format!("release {}", r));
        }
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = ops();
        sc.ops.extend(user_ops());
        sc.ops.push(op("everybody leaves", drain));
        sc.depth = if th { 4 } else { 2 };
        sc.inv = Box::new(inv);
        sc.step = Box::new(judge);
        sc
    }));
    m
}
