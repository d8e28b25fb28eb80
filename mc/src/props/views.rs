//! E30, F10: every question about the same thing has the same answer.
use super::*;
use crate::chain::*;
use crate::curve::*;
use crate::ensure;
use crate::exh::*;
use crate::explore::*;
use crate::fail;
use crate::ops::*;
use crate::props::custody as cu;
use crate::props::farm as fa;
use crate::rates::*;
use crate::vm::*;
use crate::Ctx;
use num_bigint::BigInt;
use serde_json::{json, Map, Value};

const DAN: &str = fa::DAN;
const WHO: &[&str] = &[OWNER, ALICE, BOB, CAROL, DAN, REF, EX];

struct Asker<'a> {
    v: &'a Viewer,
    key: &'static str,
}
impl Asker<'_> {
    fn q(&self, m: &str, a: Value) -> Result<Value, Fail> {
        match self.v.try_get(m, a.clone()) {
            Ok(mut x) => {
                unordered(&mut x);
                Ok(x)
            }
            Err(e) => fail!(format!("{}:no-answer", self.key), "{}({}) has no answer: {}", m, a, e),
        }
    }
    fn same(&self, what: &str, a: &Value, b: &Value) -> R {
        ensure!(a == b, format!("{}:{}", self.key, what.split(' ').next().unwrap()), "{}: {} and {}", what, cut(a), cut(b));
        Ok(())
    }
    /// A list asked for by index and length is that part of the list of single answers.
    fn slices(&self, m: &str, all: &[Value]) -> R {
        let n = all.len() as u64;
        for f in 0..=n + 1 {
            for l in 0..=n + 1 {
                let a = self.q(m, json!({"from_index": f, "limit": l}))?;
                let want: Vec<Value> = all.iter().skip(f as usize).take(l as usize).cloned().collect();
                self.same(&format!("{} from {}, {} long, is not what the single answers say", m, f, l), &a, &Value::Array(want))?;
            }
        }
        Ok(())
    }
    /// Pages of a collection without order: the pages of one are the parts of which the longer ones consist.
    /// Returns everything.
    fn pages(&self, m: &str, with: &Value, open: bool) -> Result<Map<String, Value>, Fail> {
        let ask = |f: Option<u64>, l: Option<u64>| {
            let mut a = with.clone();
            a["from_index"] = json!(f);
            a["limit"] = json!(l);
            self.q(m, a).map(|x| x.as_object().cloned().unwrap_or_default())
        };
        let all = if open { ask(None, None)? } else { ask(Some(0), Some(1000))? };
        let n = all.len() as u64;
        let mut ones = vec![];
        for i in 0..n {
            let p = ask(Some(i), Some(1))?;
            ensure!(p.len() == 1, format!("{}:{}", self.key, m), "{}: page {} of {} has {} entries", m, i, n, p.len());
            ones.push(p);
        }
        for f in 0..=n + 1 {
            for l in 0..=n + 1 {
                let p = ask(Some(f), Some(l))?;
                let mut want = Map::new();
                for o in ones.iter().skip(f as usize).take(l as usize) {
                    want.extend(o.clone());
                }
                self.same(&format!("{} from {}, {} long, is not what the pages of one say", m, f, l), &Value::Object(p), &Value::Object(want))?;
            }
            if open {
                let mut want = Map::new();
                for o in ones.iter().skip(f as usize) {
                    want.extend(o.clone());
                }
                self.same(&format!("{} from {} on", m, f), &Value::Object(ask(Some(f), None)?), &Value::Object(want))?;
            }
        }
        let mut sum = Map::new();
        for o in ones {
            sum.extend(o);
        }
        self.same(&format!("{} all at once and one by one", m), &Value::Object(all.clone()), &Value::Object(sum))?;
        Ok(all)
    }
}
/// The farms of a seed are a set.
fn unordered(x: &mut Value) {
    match x {
        Value::Object(m) => {
            for (k, y) in m.iter_mut() {
                if k == "farms" {
                    let s = sorted(y);
                    *y = json!(s);
                }
                unordered(y);
            }
        }
        Value::Array(a) => a.iter_mut().for_each(unordered),
        _ => {}
    }
}
fn cut(x: &Value) -> String {
    let s = x.to_string();
    if s.len() > 300 { format!("{}...", &s[..300]) } else { s }
}
fn sorted(x: &Value) -> Vec<String> {
    let mut v: Vec<String> = x.as_array().map(|a| a.iter().map(|y| y.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
    v.sort();
    v
}
fn names(m: &Map<String, Value>) -> Vec<String> {
    let mut v: Vec<String> = m.keys().cloned().collect();
    v.sort();
    v
}

// ---- E30

fn ask_pools(a: &Asker) -> R {
    let meta = a.q("metadata", json!({}))?;
    let n = a.q("get_number_of_pools", json!({}))?;
    a.same("metadata and get_number_of_pools", &meta["pool_count"], &n)?;
    let n = n.as_u64().unwrap_or(0);
    let (mut ps, mut ds, mut vs) = (vec![], vec![], vec![]);
    let rated = a.q("list_rated_tokens", json!({}))?;
    let degen = a.q("list_degen_tokens", json!({}))?;
    for i in 0..n {
        let id = json!({ "pool_id": i });
        let p = a.q("get_pool", id.clone())?;
        let d = a.q("get_pool_detail_info", id.clone())?;
        let (name, m) = match p["pool_kind"].as_str() {
            Some("SIMPLE_POOL") => ("SimplePoolInfo", None),
            Some("STABLE_SWAP") => ("StablePoolInfo", Some("get_stable_pool")),
            Some("RATED_SWAP") => ("RatedPoolInfo", Some("get_rated_pool")),
            Some("DEGEN_SWAP") => ("DegenPoolInfo", Some("get_degen_pool")),
            k => fail!("e30:kind", "pool {} is of kind {:?}", i, k),
        };
        let x = &d[name];
        ensure!(x.is_object(), "e30:detail", "the details of pool {} ({}) are {}", i, p["pool_kind"], cut(&d));
        for k in ["token_account_ids", "amounts", "total_fee", "shares_total_supply"] {
            a.same(&format!("get_pool and get_pool_detail_info of pool {} disagree on {}", i, k), &p[k], &x[k])?;
        }
        a.same(&format!("get_pool and get_pool_fee of pool {}", i), &p["total_fee"], &a.q("get_pool_fee", id.clone())?)?;
        a.same(&format!("get_pool and get_pool_total_shares of pool {}", i), &p["shares_total_supply"], &a.q("get_pool_total_shares", id.clone())?)?;
        a.same(&format!("get_pool and mft_total_supply of pool {}", i), &p["shares_total_supply"], &a.q("mft_total_supply", json!({"token_id": format!(":{}", i)}))?)?;
        let digits = a.q("mft_metadata", json!({"token_id": format!(":{}", i)}))?["decimals"].as_u64().unwrap_or(0) as u32;
        for other in ["get_stable_pool", "get_rated_pool", "get_degen_pool"] {
            let y = a.v.try_get(other, id.clone());
            if Some(other) == m {
                match y {
                    Ok(y) => a.same(&format!("{} and get_pool_detail_info of pool {}", other, i), &y, x)?,
                    Err(e) => fail!("e30:no-answer", "{} of pool {}: {}", other, i, e),
                }
            } else {
                ensure!(y.is_err(), "e30:kind", "{} answers for pool {}, which is a {}", other, i, name);
            }
        }
        if m.is_some() {
            a.same(&format!("get_pool and get_pool_detail_info of pool {} disagree on the amplification", i), &p["amp"], &x["amp"])?;
            let (am, c) = (us(&p["amounts"]), us(&x["c_amounts"]));
            for (j, t) in p["token_account_ids"].as_array().unwrap().iter().enumerate() {
                let t = t.as_str().unwrap();
                let dec = x["decimals"][j].as_u64().unwrap_or(0) as u32;
                let want = if dec <= digits { big(c[j]) / p10(digits - dec) } else { big(c[j]) * p10(dec - digits) };
                ensure!(big(am[j]) == want, "e30:amounts", "pool {} reports {} of {} ({} decimals) and {} at {} decimals", i, am[j], t, dec, c[j], digits);
                if name == "RatedPoolInfo" {
                    let r = if rated[t].is_null() { E24.to_string() } else { rated[t]["rate_price"].as_str().unwrap_or("").to_string() };
                    ensure!(x["rates"][j] == json!(r), "e30:rates", "pool {} reports a rate of {} for {}, list_rated_tokens {}", i, x["rates"][j], t, r);
                }
                if name == "DegenPoolInfo" {
                    ensure!(x["degens"][j] == degen[t]["degen_price"], "e30:prices", "pool {} reports a price of {} for {}, list_degen_tokens {}", i, x["degens"][j], t, degen[t]);
                }
            }
            let supply = u(&p["shares_total_supply"]);
            if supply > 0 {
                let price = big(u(&a.q("get_pool_share_price", id.clone())?));
                // a prediction that is given the rates or prices the pool goes by is the one that is not given any
                let ask: Vec<String> = c.iter().map(|x| (x / 1_000_000 + 7).to_string()).collect();
                for (kind, given, rates) in [("rated", "rates", &x["rates"]), ("degen", "degens", &x["degens"])] {
                    if rates.is_array() {
                        for (m, plain) in [(format!("predict_add_{}_liquidity", kind), "predict_add_stable_liquidity"), (format!("predict_remove_{}_liquidity_by_tokens", kind), "predict_remove_liquidity_by_tokens")] {
                            let q = json!({"pool_id": i, "amounts": ask});
                            let mut with = q.clone();
                            with[given] = rates.clone();
                            let (r, s, t) = (a.v.try_get(plain, q.clone()).ok(), a.v.try_get(&m, q).ok(), a.v.try_get(&m, with).ok());
                            ensure!((r.is_none() || r == s) && s == t, "e30:predict", "{} of pool {} is {:?}, {} without rates {:?}, with the current ones {:?}", plain, i, r, m, s, t);
                        }
                        let q = json!({"pool_id": i, "token_in": p["token_account_ids"][0], "token_out": p["token_account_ids"][1], "amount_in": ask[0]});
                        let m = format!("get_{}_return", kind);
                        let mut with = q.clone();
                        with[given] = rates.clone();
                        let (r, s, t) = (a.v.try_get("get_return", q.clone()).ok(), a.v.try_get(&m, q).ok(), a.v.try_get(&m, with).ok());
                        ensure!((r.is_none() || r == s) && s == t, "e30:predict", "get_return of pool {} is {:?}, {} without rates {:?}, with the current ones {:?}", i, r, m, s, t);
                    }
                }
                if name == "DegenPoolInfo" {
                    let g = us(&x["degens"]);
                    let want: BigInt = c.iter().zip(g.iter()).map(|(c, g)| big(*c) * *g / p10(24) / p10(24)).sum();
                    // none while a price has expired
                    if let Ok(tvl) = a.v.try_get("get_degen_pool_tvl", id.clone()) {
                        let tvl = big(u(&tvl));
                        ensure!((&tvl - &want).magnitude() <= &4u32.into(), "e30:tvl", "the tokens of pool {} are worth {}, get_degen_pool_tvl says {}", i, want, tvl);
                    }
                }
            }
        }
        let v = a.q("get_pool_volumes", id.clone())?;
        ps.push(p);
        ds.push(d);
        vs.push(v);
        // shares
        for who in WHO {
            let s = a.q("get_pool_shares", json!({"pool_id": i, "account_id": who}))?;
            a.same(&format!("get_pool_shares and mft_balance_of of {} in pool {}", who, i), &s, &a.q("mft_balance_of", json!({"token_id": format!(":{}", i), "account_id": who}))?)?;
            let reg = a.q("mft_has_registered", json!({"token_id": format!(":{}", i), "account_id": who}))?;
            ensure!(u(&s) == 0 || reg == json!(true), "e30:registered", "{} has {} shares of pool {} and is not registered in it", who, s, i);
        }
    }
    for m in ["get_pool", "get_pool_detail_info", "get_pool_volumes", "get_pool_fee"] {
        ensure!(a.v.try_get(m, json!({ "pool_id": n })).is_err(), "e30:none", "{} answers for pool {} of {}", m, n, n);
    }
    a.slices("get_pools", &ps)?;
    a.slices("get_pool_detail_infos", &ds)?;
    a.slices("list_pool_volumes", &vs)?;
    for ids in [vec![], vec![0u64], vec![n - 1, 0], vec![1, 1], (0..n).rev().collect()] {
        let pick = |x: &[Value]| Value::Array(ids.iter().map(|i| x[*i as usize].clone()).collect());
        for (m, x) in [("get_pool_by_ids", &ps), ("get_pool_detail_info_by_ids", &ds), ("get_pool_volumes_by_ids", &vs)] {
            a.same(&format!("{} of {:?}", m, ids), &a.q(m, json!({ "pool_ids": ids }))?, &pick(x))?;
        }
        for who in WHO {
            let one: Result<Vec<Value>, Fail> = ids.iter().map(|i| a.q("get_pool_shares", json!({"pool_id": i, "account_id": who}))).collect();
            let one = Value::Array(one?);
            a.same(&format!("get_pool_shares_batch of {:?} of {}", ids, who), &a.q("get_pool_shares_batch", json!({"pool_ids": ids, "account_id": who}))?, &one)?;
            let b = a.q("batch_views", json!({"account_id": who}))?;
            a.same(&format!("batch_views and get_shadow_records of {}", who), &b[0], &a.q("get_shadow_records", json!({ "account_id": who }))?)?;
            ensure!(b[1].is_null() && b[2].is_null(), "e30:batch", "batch_views without pools answers {}", cut(&b));
        }
    }
    Ok(())
}
fn ask_accounts(a: &Asker, toks: &[&str]) -> R {
    for who in WHO {
        let id = json!({ "account_id": who });
        let d = a.q("get_deposits", id.clone())?.as_object().cloned().unwrap_or_default();
        let pages = a.pages("get_tokens_paged", &id, true)?;
        a.same(&format!("get_deposits and get_tokens_paged of {}", who), &json!(d), &json!(pages))?;
        let l = a.q("get_user_whitelisted_tokens", id.clone())?;
        ensure!(sorted(&l) == names(&d), "e30:tokens", "get_user_whitelisted_tokens of {} says {}, get_deposits {}", who, l, cut(&json!(d)));
        let lf = a.pages("list_lostfound_tokens", &id, true)?;
        for t in toks {
            let one = json!({"account_id": who, "token_id": t});
            let n = d.get(*t).cloned().unwrap_or(json!("0"));
            a.same(&format!("get_deposit and get_deposits of {} of {}", t, who), &a.q("get_deposit", one.clone())?, &n)?;
            a.same(&format!("mft_balance_of and get_deposits of {} of {}", t, who), &a.q("mft_balance_of", one.clone())?, &n)?;
            a.same(&format!("token_register_of and get_deposits of {} of {}", t, who), &a.q("token_register_of", one.clone())?, &json!(d.contains_key(*t)))?;
            a.same(&format!("get_lostfound_token and list_lostfound_tokens of {} of {}", t, who), &a.q("get_lostfound_token", one)?, &lf.get(*t).cloned().unwrap_or(json!("0")))?;
        }
        let (s, b, i) = (a.q("get_user_storage_state", id.clone())?, a.q("storage_balance_of", id.clone())?, a.q("get_account_basic_info", id.clone())?);
        ensure!(s.is_null() == b.is_null() && i.is_null() == b.is_null(), "e30:storage", "{} has an account or not: {} {} {}", who, s, b, i);
        if !s.is_null() {
            ensure!(s["deposit"] == b["total"] && i["near_amount"] == b["total"], "e30:storage", "the storage deposit of {}: {} {} {}", who, s, b, i);
            let (t, used, free) = (u(&b["total"]), u(&s["usage"]), u(&b["available"]));
            ensure!(free == t.saturating_sub(used), "e30:storage", "{} paid {} for storage, uses {} and has {} available", who, t, used, free);
        } else {
            ensure!(d.is_empty(), "e30:storage", "{} has no account and holds {}", who, cut(&json!(d)));
        }
    }
    Ok(())
}
fn ask_lists(a: &Asker, w: &World) -> R {
    let meta = a.q("metadata", json!({}))?;
    a.same("metadata and get_owner", &meta["owner"], &a.q("get_owner", json!({}))?)?;
    ensure!(sorted(&meta["guardians"]) == sorted(&a.q("get_guardians", json!({}))?), "e30:guardians", "metadata and get_guardians: {} {}", meta["guardians"], a.q("get_guardians", json!({}))?);
    a.same("metadata and version", &meta["version"], &a.q("version", json!({}))?)?;
    a.pages("list_referrals", &json!({}), true)?;
    let n = u(&meta["pool_count"]) as u64;
    let tw = a.pages("list_pool_twap_info_view", &json!({}), true)?;
    let lim = a.pages("get_pool_limit_paged", &json!({}), true)?;
    for i in 0..n {
        let k = i.to_string();
        a.same(&format!("get_pool_twap_info_view and list_pool_twap_info_view of pool {}", i), &a.q("get_pool_twap_info_view", json!({ "pool_id": i }))?, tw.get(&k).unwrap_or(&Value::Null))?;
        a.same(&format!("get_pool_limit_by_pool_id and get_pool_limit_paged of pool {}", i), &a.q("get_pool_limit_by_pool_id", json!({ "pool_id": i }))?, lim.get(&k).unwrap_or(&Value::Null))?;
        if tw.contains_key(&k) {
            let one = a.q("get_unit_share_twap_token_amounts", json!({ "pool_id": i }))?;
            for who in [ALICE, BOB] {
                let b = a.q("batch_views", json!({"account_id": who, "pool_ids": [i]}))?;
                a.same(&format!("batch_views and get_pool_shares_batch of pool {} of {}", i, who), &b[2], &a.q("get_pool_shares_batch", json!({"pool_ids": [i], "account_id": who}))?)?;
                a.same(&format!("batch_views and get_unit_lpt_assets of pool {}", i), &b[1], &a.q("get_unit_lpt_assets", json!({ "pool_ids": [i] }))?)?;
                let e = &b[1][format!("shadow_ref_v1-{}", i)];
                if one.is_null() {
                    ensure!(e.is_null(), "e30:average", "pool {} has no average yet and the lending market is told {}", i, cut(e));
                } else {
                    let p = pool(a.v, i);
                    let want: Vec<Value> = p.tokens.iter().enumerate().map(|(j, t)| json!({"token_id": t, "amount": one[j]})).collect();
                    ensure!(e["tokens"] == json!(want), "e30:average", "the average of pool {} is {}, the lending market is told {}", i, one, cut(e));
                    a.same(&format!("mft_metadata and get_unit_lpt_assets of pool {}", i), &e["decimals"], &a.q("mft_metadata", json!({"token_id": format!(":{}", i)}))?["decimals"])?;
                }
            }
        }
    }
    let dg = a.q("list_degen_tokens", json!({}))?;
    let mut ask: Vec<String> = dg.as_object().map(names).unwrap_or_default();
    ask.push(T3.into());
    let b = a.q("batch_get_degen_tokens", json!({ "token_ids": ask }))?;
    for t in &ask {
        a.same(&format!("list_degen_tokens and batch_get_degen_tokens of {}", t), &b[t], dg.get(t).unwrap_or(&Value::Null))?;
    }
    // every answer about a price or rate says whether it is still good
    for (x, good, valid, when) in [("list_rated_tokens", 86_400u64 * 1_000_000_000, "is_valid", "last_update_ts"), ("list_degen_tokens", EXPIRE as u64, "is_price_valid", "last_update_ts")] {
        for (t, e) in a.q(x, json!({}))?.as_object().cloned().unwrap_or_default() {
            let at = u(&e[when]) as u64;
            if (at > 0 || x == "list_rated_tokens") && e[valid].is_boolean() && (w.ts < at + good || w.ts > at + good + 1_000_000_000) {
                ensure!(e[valid] == json!(w.ts < at + good), "e30:valid", "{}: {} was updated {} s ago and is called valid: {}", x, t, (w.ts - at) / 1_000_000_000, e[valid]);
            }
        }
    }
    Ok(())
}
pub fn e30(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    let th = cx.thorough;
    let all = |toks: &'static [&'static str]| {
        move |env: &Env, w: &World| {
            let v = env.view(w, EX);
            let a = Asker { v: &v, key: "e30" };
            ask_pools(&a)?;
            ask_accounts(&a, toks)?;
            ask_lists(&a, w)
        }
    };
    v.push(mk(cx, "pools of all kinds", move |cx| {
        let mut s = family(cx);
        s.pool_of("add_rated_swap_pool", &[USD, T1, ST], &[6, 18, 24], 7, 60);
        s.add_stable(ALICE, 5, &[40_000 * E6 + 1, 41_000 * E18 + 5, 39_000 * E24]);
        // never updated
        s.one(OWNER, "register_rated_token", json!({"rate_type": "NEARX", "token_id": "nearx.test"}));
        for p in 0..6 {
            s.try_(OWNER, EX, "register_pool_twap_record", json!({ "pool_id": p }), 1);
        }
        s.one(OWNER, "add_degen_pool_limit", json!({"pool_id": 2, "degen_pool_limit_info": {"tvl_limit": "500000000"}}));
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops.extend(family_swaps());
        sc.ops.extend(family_liq());
        sc.ops.push(tx(BOB, EX, "swap", json!({"actions": [act(5, T1, USD, Some(10 * E18 + 3), 0)]}), 1));
        sc.ops.push(tx(OWNER, EX, "modify_total_fee", json!({"pool_id": 3, "total_fee": 77}), 1));
        sc.ops.push(tx(OWNER, EX, "stable_swap_ramp_amp", json!({"pool_id": 3, "future_amp_factor": 300, "future_amp_time": (sc.init.ts + 200_000 * 1_000_000_000).to_string()}), 1));
        sc.ops.push(op("wait 25 hours", |x| {
            x.w.ts += 25 * 3600 * 1_000_000_000;
            Ok(())
        }));
        sc.depth = if th { 3 } else { 2 };
        sc.inv = Box::new(all(FTOKS));
        sc
    }));
    v.push(mk(cx, "lists that grow and shrink", move |cx| {
        let mut s = cu::mix(cx);
        cu::tokens_may_fail(&mut s);
        for (p, a, b) in [(0, T2, T1), (2, T1, T3)] {
            let mut ch = Chooser::new(vec![1]);
            let msg = json!({"actions": [act(p, a, b, None, 1)], "swap_out_recipient": DAN}).to_string();
            s.env.submit(&mut s.w, &mut ch, CAROL, a, "ft_transfer_call", json!({"receiver_id": EX, "amount": "1000000", "msg": msg}), 1);
            s.env.settle(&mut s.w, &mut ch, &mut vec![]);
            s.env.cleanup(&mut s.w);
            let v = s.env.view(&s.w, EX);
            assert!(lostfound(&v, DAN, b) > 0, "SETUP_FAILED no lost-and-found entry in {}", b);
        }
        s.env.actors.insert(BOOST.into(), Actor::Shadow);
        s.env.actors.insert(BURROW.into(), Actor::Shadow);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = vec![
            tx(OWNER, EX, "insert_referral", json!({"referral_id": CAROL, "fee_bps": 100}), 1),
            tx(OWNER, EX, "insert_referral", json!({"referral_id": ALICE, "fee_bps": 200}), 1),
            tx(OWNER, EX, "remove_referral", json!({ "referral_id": REF }), 1),
            tx(OWNER, EX, "register_pool_twap_record", json!({ "pool_id": 0 }), 1),
            tx(OWNER, EX, "register_pool_twap_record", json!({ "pool_id": 2 }), 1),
            tx(OWNER, EX, "unregister_pool_twap_record", json!({ "pool_id": 0 }), 1),
            tx(ALICE, EX, "add_simple_pool", json!({"tokens": [T3, T1], "fee": 9}), NEAR / 10),
            tx(ALICE, EX, "shadow_action", json!({"action": "ToFarming", "pool_id": 0, "msg": ""}), NEAR / 100),
            tx(ALICE, EX, "shadow_action", json!({"action": "ToBurrowland", "pool_id": 2, "amount": "12345", "msg": ""}), NEAR / 100),
            tx(BOB, EX, "register_tokens", json!({"token_ids": [WNEAR]}), 1),
            tx(BOB, EX, "unregister_tokens", json!({"token_ids": [WNEAR]}), 1),
            withdraw_op(BOB, T3, 0, true, false),
            withdraw_op(BOB, T1, 0, true, false),
            tx(DAN, EX, "claim_lostfound", json!({ "token_id": T1 }), 1),
            tx(DAN, EX, "claim_lostfound", json!({ "token_id": T3 }), 1),
            tx(T1, EX, "ft_on_transfer", json!({"sender_id": CAROL, "amount": "100000000000", "msg": json!({"actions": [act(0, T1, T2, None, 1)], "swap_out_recipient": DAN}).to_string()}), 0),
            tx(BOB, EX, "swap", json!({"actions": [act(0, T2, T1, Some(1_234 * E18 + 5), 0), act(2, T1, T3, None, 0)], "referral_id": REF}), 1),
            tx(CAROL, EX, "mft_register", json!({"token_id": ":1", "account_id": CAROL}), NEAR / 10),
            tx(OWNER, EX, "set_owner", json!({ "owner_id": GUARD }), 1),
            tx(OWNER, EX, "remove_guardians", json!({ "guardians": [GUARD] }), 1),
        ];
        sc.depth = if th { 4 } else { 3 };
        sc.inv = Box::new(all(cu::TOKS));
        sc
    }));
    v
}

// ---- F10

fn ask_farming(a: &Asker, who: &[&str], toks: &[&str]) -> R {
    let meta = a.q("get_metadata", json!({}))?;
    let mut farms = vec![];
    for (count, list, one, other) in [("get_number_of_farms", "list_farms", "get_farm", "get_outdated_farm"), ("get_number_of_outdated_farms", "list_outdated_farms", "get_outdated_farm", "get_farm")] {
        let n = a.q(count, json!({}))?;
        if count == "get_number_of_farms" {
            ensure!(u(&meta["farm_count"]) == n.as_u64().unwrap_or(0) as u128, "f10:count", "there are {} farms, the metadata says {}", n, meta["farm_count"]);
        }
        let all = a.q(list, json!({"from_index": 0, "limit": 1000}))?.as_array().cloned().unwrap_or_default();
        ensure!(json!(all.len()) == n, "f10:count", "{} says {}, {} has {}", count, n, list, all.len());
        for f in &all {
            let id = json!({ "farm_id": f["farm_id"] });
            a.same(&format!("{} and {} of {}", list, one, f["farm_id"]), f, &a.q(one, id.clone())?)?;
            ensure!(a.q(other, id)?.is_null(), "f10:both", "{} is running and cleared at the same time", f["farm_id"]);
        }
        a.slices(list, &all)?;
        if count == "get_number_of_farms" {
            farms = all;
        }
    }
    let seeds = a.pages("list_seeds", &json!({}), false)?;
    let infos = a.pages("list_seeds_info", &json!({}), false)?;
    ensure!(u(&meta["seed_count"]) == seeds.len() as u128 && names(&seeds) == names(&infos), "f10:seeds", "the seeds are {:?} and {:?}, {} in number", names(&seeds), names(&infos), meta["seed_count"]);
    let mut total = 0;
    for (s, i) in &infos {
        a.same(&format!("list_seeds and list_seeds_info of {}", s), &seeds[s], &i["amount"])?;
        a.same(&format!("get_seed_info and list_seeds_info of {}", s), &a.q("get_seed_info", json!({ "seed_id": s }))?, i)?;
        let by = a.q("list_farms_by_seed", json!({ "seed_id": s }))?.as_array().cloned().unwrap_or_default();
        let mut want: Vec<&Value> = farms.iter().filter(|f| f["seed_id"] == json!(s)).collect();
        let mut got: Vec<&Value> = by.iter().collect();
        for x in [&mut want, &mut got] {
            x.sort_by_key(|f| f["farm_id"].to_string());
        }
        ensure!(want == got, "f10:by-seed", "list_farms_by_seed of {} is {}", s, cut(&json!(by)));
        let ids: Vec<String> = want.iter().map(|f| f["farm_id"].as_str().unwrap().to_string()).collect();
        ensure!(sorted(&i["farms"]) == ids, "f10:by-seed", "the farms of {} are {} and {:?}", s, i["farms"], ids);
        total += want.len();
    }
    ensure!(total == farms.len(), "f10:by-seed", "{} farms, {} of them listed by seed", farms.len(), total);
    let rew = a.pages("list_rewards_info", &json!({}), false)?;
    ensure!(u(&meta["reward_count"]) == rew.len() as u128, "f10:rewards", "{} reward tokens, the metadata says {}", rew.len(), meta["reward_count"]);
    for w in who {
        let id = json!({ "account_id": w });
        let r = a.q("list_rewards", id.clone())?.as_object().cloned().unwrap_or_default();
        for t in toks {
            a.same(&format!("get_reward and list_rewards of {} of {}", t, w), &a.q("get_reward", json!({"account_id": w, "token_id": t}))?, &r.get(*t).cloned().unwrap_or(json!("0")))?;
        }
        for t in names(&r) {
            ensure!(toks.contains(&&t[..]), "f10:rewards", "{} has rewards of {}", w, t);
        }
        let (s, b) = (a.q("get_user_storage_state", id.clone())?, a.q("storage_balance_of", id.clone())?);
        ensure!(s.is_null() == b.is_null(), "f10:storage", "{} has an account or not: {} {}", w, s, b);
        if !s.is_null() {
            ensure!(s["deposit"] == b["total"] && u(&b["available"]) == u(&b["total"]).saturating_sub(u(&s["usage"])), "f10:storage", "the storage deposit of {}: {} {}", w, s, b);
        }
        for f in &farms {
            let n = u(&a.q("get_unclaimed_reward", json!({"account_id": w, "farm_id": f["farm_id"]}))?);
            ensure!(n == 0 || (!s.is_null() && n <= u(&f["unclaimed_reward"])), "f10:unclaimed", "{} can claim {} from {}, which has {}", w, n, f["farm_id"], f["unclaimed_reward"]);
        }
    }
    for (s, n) in &seeds {
        let sum: u128 = who.iter().map(|w| fa::of(&fa::stakes(a.v, w), s)).sum();
        ensure!(sum == u(n), "f10:stakes", "the stakes of {} add up to {}, the seed has {}", s, sum, n);
    }
    Ok(())
}
pub fn f10(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    let th = cx.thorough;
    v.push(mk(cx, "farms, stakes, rewards", move |cx| {
        let s = fa::base(cx);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = fa::mix();
        sc.ops.push(fa::create(fa::M0, fa::R2, 0, 777, 60));
        sc.ops.push(fa::clean("mf.test@0#0"));
        sc.ops.push(op("dan leaves", |x| {
            x.call(fa::DAN, FARM, "storage_unregister", json!({}), 1);
            Ok(())
        }));
        sc.depth = if th { 4 } else { 3 };
        sc.inv = Box::new(|env, w| {
            let v = env.view(w, FARM);
            ask_farming(&Asker { v: &v, key: "f10" }, fa::WHO, fa::REWS)
        });
        sc
    }));
    v.push(mk(cx, "one farm from its start to its end", move |cx| {
        let mut s = fa::farming(cx);
        // two farms that are over and cleared
        for k in 0..2 {
            let f = fa::new_farm(&mut s, fa::M0, fa::R2, 0, 400, 60, 10);
            fa::put(&mut s, CAROL, fa::R2, 400, &f);
            s.w.ts += 100_000_000_000 * (k + 1);
            s.must(OWNER, FARM, "force_clean_farm", json!({ "farm_id": f }), 0);
        }
        fa::new_farm(&mut s, fa::M0, fa::R2, 0, 400, 60, 10);
        for a in [ALICE, BOB] {
            fa::join(&mut s, a);
        }
        fa::put(&mut s, CAROL, fa::R2, 1200, &format!("{}#2", fa::M0));
        assert!(fa::old(&s.env.view(&s.w, FARM)).len() == 2, "SETUP_FAILED no cleared farms");
        fa::put(&mut s, ALICE, fa::M0, 40, "");
        s.mint(fa::M0, BOB, 1000);
        s.mint(fa::R2, CAROL, 1_000_000);
        s.mint(fa::R1, CAROL, 1_000_000);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.ops = vec![
            fa::wait(60),
            fa::wait(200),
            fa::claim_farm(ALICE, "mf.test@0#2"),
            fa::take(ALICE, fa::R2, None),
            fa::unstake(ALICE, fa::M0, None),
            fa::clean("mf.test@0#2"),
            fa::stake(BOB, fa::M0, 50),
            fa::create(fa::M0, fa::R2, 0, 30, 60),
            fa::create(fa::S1, fa::R1, 0, 30, 60),
            fa::fund(fa::R2, 900, "mf.test@0#3"),
            fa::fund(fa::R1, 900, "s1.test#0"),
            fa::take(BOB, fa::R2, None),
        ];
        sc.depth = if th { 7 } else { 5 };
        sc.inv = Box::new(|env, w| {
            let v = env.view(w, FARM);
            ask_farming(&Asker { v: &v, key: "f10" }, fa::WHO, fa::REWS)
        });
        sc
    }));
    v
}
