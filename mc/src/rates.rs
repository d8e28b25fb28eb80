//! Set-up of pools with quoted tokens (rated, degen) and of stable pools with mixed decimals.
use crate::chain::*;
use crate::exh::*;
use crate::explore::*;
use crate::ops::*;
use crate::props::custody::*;
use crate::Ctx;
use serde_json::{json, Value};
use std::sync::Arc;

pub const ST: &str = "stnear.test";
pub const LI: &str = "linear.test";
pub const NX: &str = "nearx.test";
pub const SF: &str = "sfrax.test";
pub const FRAX: &str = "frax.test";
pub const USD: &str = "usd.test";
pub const D24: &str = "deep.test";
pub const ORA: &str = "oracle.test";
pub const PYTH: &str = "pyth.test";
pub const E24: u128 = 1_000_000_000_000_000_000_000_000;
pub const E18: u128 = 1_000_000_000_000_000_000;
pub const E6: u128 = 1_000_000;
pub const DAY: u64 = 24 * 3600 * 1_000_000_000;
pub const SEC: u64 = 1_000_000_000;
pub const PID: &str = "1111111111111111111111111111111111111111111111111111111111111111";
pub const PID2: &str = "2222222222222222222222222222222222222222222222222222222222222222";
pub const FTOKS: &[&str] = &[T1, T2, T3, WNEAR, ST, LI, USD, D24];
/// When a degen price expires after an update.
pub const EXPIRE: u64 = 3600 * SEC;

pub fn quote(x: u128) -> Reply {
    Reply::Ok(format!("\"{}\"", x))
}

/// A price-oracle answer for exactly the assets asked for.
/// `age`: how old the data is; prices as (asset, multiplier, decimals).
pub fn price_data(w: &World, args: &Value, age: i64, recency: u32, prices: &[(&str, u128, u8)]) -> String {
    let ids: Vec<String> = args["asset_ids"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let ps: Vec<Value> = ids
        .iter()
        .map(|id| match prices.iter().find(|p| p.0 == id) {
            Some((a, m, d)) => json!({"asset_id": a, "price": {"multiplier": m.to_string(), "decimals": d}}),
            None => json!({"asset_id": id, "price": null}),
        })
        .collect();
    let ts = (w.ts as i64 - age).max(0);
    json!({"timestamp": ts.to_string(), "recency_duration_sec": recency, "prices": ps}).to_string()
}
pub fn oracle_ok(prices: Vec<(&'static str, u128, u8)>) -> Reply {
    Reply::Dyn(Arc::new(move |w, a| price_data(w, a, 0, 90, &prices)))
}
pub fn pyth_price(w: &World, age_s: i64, price: i64, expo: i32) -> Value {
    json!({"price": price.to_string(), "conf": "1", "expo": expo, "publish_time": (w.ts / SEC) as i64 - age_s})
}
/// Answers get_price for known identifiers: (id, price, expo).
pub fn pyth_one(ps: Vec<(&'static str, i64, i32)>, age_s: i64) -> Reply {
    Reply::Dyn(Arc::new(move |w, a| {
        let id = a["price_identifier"].as_str().unwrap_or("");
        match ps.iter().find(|p| p.0 == id) {
            Some((_, p, e)) => pyth_price(w, age_s, *p, *e).to_string(),
            None => "null".into(),
        }
    }))
}
pub fn pyth_many(ps: Vec<(&'static str, i64, i32)>, age_s: i64) -> Reply {
    Reply::Dyn(Arc::new(move |w, a| {
        let mut m = serde_json::Map::new();
        for id in a["price_ids"].as_array().cloned().unwrap_or_default() {
            let id = id.as_str().unwrap_or("").to_string();
            let v = ps.iter().find(|p| p.0 == id).map(|(_, p, e)| pyth_price(w, age_s, *p, *e)).unwrap_or(Value::Null);
            m.insert(id, v);
        }
        Value::Object(m).to_string()
    }))
}

pub fn tokens(s: &mut Sb, ts: &[&str]) {
    for t in ts {
        s.env.actors.insert(t.to_string(), Actor::Token { fail: false });
    }
    s.one(OWNER, "extend_whitelisted_tokens", json!({ "tokens": ts }));
}
pub fn rate_quotes(s: &mut Sb, st: u128, li: u128, nx: u128) {
    s.env.menus.insert(ST.into(), vec![("get_st_near_price", vec![quote(st)])]);
    s.env.menus.insert(LI.into(), vec![("ft_price", vec![quote(li)])]);
    s.env.menus.insert(NX.into(), vec![("get_nearx_price", vec![quote(nx)])]);
}
pub fn rate_of(v: &crate::vm::Viewer, t: &str) -> (u128, bool) {
    let m = v.get("list_rated_tokens", json!({}));
    let x = &m[t];
    (u(&x["rate_price"]), x["is_valid"].as_bool().unwrap_or(false))
}
pub fn degen_setup(s: &mut Sb, t1: u128, usd: i64) {
    s.env.actors.insert(ORA.into(), Actor::Menu(vec![]));
    s.env.actors.insert(PYTH.into(), Actor::Menu(vec![]));
    // price oracle decimals = token decimals + 4
    s.env.menus.insert(ORA.into(), vec![("get_price_data", vec![oracle_ok(vec![(T1, t1, 22)])])]);
    s.env.menus.insert(
        PYTH.into(),
        vec![("get_price", vec![pyth_one(vec![(PID, usd, -8)], 0)]), ("list_prices_no_older_than", vec![pyth_many(vec![(PID, usd, -8)], 0)])],
    );
    s.one(OWNER, "register_degen_oracle_config", json!({"degen_oracle_config": {"PriceOracle": {"oracle_id": ORA, "expire_ts": EXPIRE.to_string(), "maximum_recency_duration_sec": 90, "maximum_staleness_duration_sec": 90}}}));
    s.one(OWNER, "register_degen_oracle_config", json!({"degen_oracle_config": {"PythOracle": {"oracle_id": PYTH, "expire_ts": EXPIRE.to_string(), "pyth_price_valid_duration_sec": 60}}}));
    s.one(OWNER, "register_degen_token", json!({"token_id": T1, "degen_type": {"PriceOracle": {"decimals": 18}}}));
    s.one(OWNER, "register_degen_token", json!({"token_id": USD, "degen_type": {"PythOracle": {"price_identifier": PID}}}));
    s.must(CAROL, EX, "update_degen_token_price", json!({ "token_id": T1 }), 0);
    s.must(CAROL, EX, "update_degen_token_price", json!({ "token_id": USD }), 0);
}

/// Pools: 0 simple T1/T2; 1 rated WNEAR/ST/LI (24 decimals); 2 degen T1(18)/USD(6);
/// 3 stable T2(18)/USD(6)/T3(18); 4 stable D24(24)/T3(18).
pub fn family(cx: &Ctx) -> Sb {
    let mut s = exchange(&cx.ex, 1600, 400);
    tokens(&mut s, &[ST, LI, USD, D24]);
    for a in [OWNER, ALICE, BOB, CAROL] {
        s.storage(a, NEAR / 10);
    }
    s.one(OWNER, "insert_referral", json!({"referral_id": REF, "fee_bps": 2500}));
    for (t, one) in [(T1, E18), (T2, E18), (T3, E18), (WNEAR, E24), (ST, E24), (LI, E24), (USD, E6), (D24, E24)] {
        s.deposit(ALICE, t, 3_000_000 * one + 7);
        s.deposit(BOB, t, 40_000 * one + 3);
        s.mint(t, CAROL, 50_000 * one + 3);
    }
    s.simple_pool(T1, T2, 30);
    rate_quotes(&mut s, 12 * E24 / 10, 131 * E24 / 100, E24);
    s.one(OWNER, "register_rated_token", json!({"rate_type": "STNEAR", "token_id": ST}));
    s.one(OWNER, "register_rated_token", json!({"rate_type": "LINEAR", "token_id": LI}));
    s.must(CAROL, EX, "update_token_rate", json!({ "token_id": ST }), 0);
    s.must(CAROL, EX, "update_token_rate", json!({ "token_id": LI }), 0);
    degen_setup(&mut s, 35_000, 100_000_000);
    s.pool_of("add_rated_swap_pool", &[WNEAR, ST, LI], &[24, 24, 24], 20, 100);
    s.pool_of("add_degen_swap_pool", &[T1, USD], &[18, 6], 15, 30);
    s.stable_pool(&[T2, USD, T3], &[18, 6, 18], 25, 240);
    s.stable_pool(&[D24, T3], &[24, 18], 10, 100);
    s.add_liq(ALICE, 0, &[100_000 * E18 + 1, 300_000 * E18 + 2]);
    s.add_stable(ALICE, 1, &[100_000 * E24, 83_000 * E24 + 11, 77_000 * E24]);
    s.add_stable(ALICE, 2, &[30_000 * E18 + 5, 110_000 * E6 + 1]);
    s.add_stable(ALICE, 3, &[50_000 * E18 + 5, 51_000 * E6 + 1, 49_000 * E18]);
    s.add_stable(ALICE, 4, &[20_000 * E24 + 123_456_789, 20_500 * E18]);
    s.add_stable(BOB, 1, &[1_000 * E24, 0, 500 * E24 + 3]);
    s.add_stable(BOB, 2, &[300 * E18 + 5, 1_000 * E6 + 1]);
    s.add_stable(BOB, 4, &[200 * E24 + 999_999, 20 * E18 + 1]);
    for p in [1, 2, 3] {
        s.must(REF, EX, "mft_register", json!({"token_id": format!(":{}", p), "account_id": REF}), NEAR / 10);
    }
    s
}
pub fn family_swaps() -> Vec<Op> {
    vec![
        tx(BOB, EX, "swap", json!({"actions": [act(1, WNEAR, ST, Some(777 * E24 + 1), 1), act(1, ST, LI, None, 0)], "referral_id": REF}), 1),
        tx(ALICE, EX, "swap", json!({"actions": [act(1, LI, WNEAR, Some(3), 0)]}), 1),
        tx(BOB, EX, "swap", json!({"actions": [act(2, T1, USD, Some(123 * E18 + 7), 1)], "referral_id": REF}), 1),
        tx(BOB, EX, "swap", json!({"actions": [act(2, USD, T1, Some(1_000_001), 1)], "skip_degen_price_sync": true}), 1),
        tx(ALICE, EX, "swap", json!({"actions": [act(3, T2, USD, Some(E18 / 3), 0), act(3, USD, T3, None, 0)], "referral_id": REF}), 1),
        tx(ALICE, EX, "swap", json!({"actions": [act(3, USD, T2, Some(1), 0)]}), 1),
        tx(BOB, EX, "swap", json!({"actions": [act(4, D24, T3, Some(55 * E24 + 123_457), 0)]}), 1),
        tx(ALICE, EX, "swap", json!({"actions": [act(4, T3, D24, Some(77 * E18 + 1), 0)]}), 1),
    ]
}
pub fn family_liq() -> Vec<Op> {
    let mx = (u128::MAX / 4).to_string();
    vec![
        tx(BOB, EX, "add_stable_liquidity", json!({"pool_id": 1, "amounts": strs(&[0, 71 * E24 + 1, 0]), "min_shares": "1"}), NEAR / 100),
        tx(BOB, EX, "add_stable_liquidity", json!({"pool_id": 2, "amounts": strs(&[3 * E18 + 1, 0]), "min_shares": "1"}), NEAR / 100),
        tx(CAROL, EX, "add_stable_liquidity", json!({"pool_id": 3, "amounts": strs(&[0, 1, 0]), "min_shares": "0"}), NEAR / 100),
        tx(ALICE, EX, "add_stable_liquidity", json!({"pool_id": 3, "amounts": strs(&[0, 777_777_777, E18 + 1]), "min_shares": "0"}), NEAR / 100),
        tx(BOB, EX, "add_stable_liquidity", json!({"pool_id": 4, "amounts": strs(&[7 * E24 + 999_999, 0]), "min_shares": "0"}), NEAR / 100),
        tx(BOB, EX, "remove_liquidity", json!({"pool_id": 1, "shares": (333 * E24 + 1).to_string(), "min_amounts": ["0", "0", "0"]}), 1),
        tx(BOB, EX, "remove_liquidity", json!({"pool_id": 2, "shares": (33 * E24 + 1).to_string(), "min_amounts": ["0", "0"]}), 1),
        tx(ALICE, EX, "remove_liquidity", json!({"pool_id": 3, "shares": (33 * E18 + 1).to_string(), "min_amounts": ["0", "0", "0"]}), 1),
        tx(BOB, EX, "remove_liquidity", json!({"pool_id": 4, "shares": (3 * E18 + 1).to_string(), "min_amounts": ["0", "0"]}), 1),
        tx(ALICE, EX, "remove_liquidity_by_tokens", json!({"pool_id": 1, "amounts": strs(&[0, 100 * E24 + 1, 3]), "max_burn_shares": mx}), 1),
        tx(ALICE, EX, "remove_liquidity_by_tokens", json!({"pool_id": 2, "amounts": strs(&[0, 1]), "max_burn_shares": mx}), 1),
        tx(ALICE, EX, "remove_liquidity_by_tokens", json!({"pool_id": 3, "amounts": strs(&[1, 1_000_001, 0]), "max_burn_shares": mx}), 1),
        tx(BOB, EX, "remove_liquidity_by_tokens", json!({"pool_id": 4, "amounts": strs(&[9 * E24 + 999_999, 1]), "max_burn_shares": mx}), 1),
    ]
}
