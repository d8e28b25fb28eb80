//! Common set-up and observations of the exchange.
use crate::chain::*;
use crate::explore::*;
use crate::vm::*;
use crate::{ensure, fail};
use num_bigint::BigInt;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

pub const OWNER: &str = "owner.test";
pub const GUARD: &str = "guard.test";
pub const ALICE: &str = "alice.test";
pub const BOB: &str = "bob.test";
pub const CAROL: &str = "carol.test";
pub const REF: &str = "referral.test";
pub const BOOST: &str = "boost.test";
pub const BURROW: &str = "burrow.test";
pub const T1: &str = "t1.test";
pub const T2: &str = "t2.test";
pub const T3: &str = "t3.test";
pub const WNEAR: &str = "wnear.test";
pub const SENDER_WL: &str = "router.test";

pub struct Sb {
    pub env: Env,
    pub w: World,
}

impl Sb {
    pub fn must(&mut self, signer: &str, recv: &str, method: &str, args: Value, deposit: u128) -> Outcome {
        let o = self.try_(signer, recv, method, args.clone(), deposit);
        if !o.ok {
            // a setup step is ordinary use of the contract: refusing it is reported by the check
            panic!("SETUP_FAILED {}.{}({}) by {}: {}", recv, method, args, signer, o.err);
        }
        o
    }
    pub fn try_(&mut self, signer: &str, recv: &str, method: &str, args: Value, deposit: u128) -> Outcome {
        let mut ch = Chooser::new(vec![]);
        let (root, e) = self.env.submit(&mut self.w, &mut ch, signer, recv, method, args, deposit);
        let mut execs = vec![e.clone()];
        self.env.settle(&mut self.w, &mut ch, &mut execs);
        let value = self.w.data.get(&root).cloned();
        self.env.cleanup(&mut self.w);
        Outcome { ok: e.ok, err: e.err, value, execs }
    }
    pub fn one(&mut self, signer: &str, method: &str, args: Value) -> Outcome {
        self.must(signer, EX, method, args, 1)
    }
    pub fn mint(&mut self, t: &str, who: &str, n: u128) {
        let b = self.w.bal(t, who);
        self.w.set_bal(t, who, b + n);
    }
    pub fn storage(&mut self, who: &str, near: u128) {
        self.must(who, EX, "storage_deposit", json!({}), near);
    }
    /// Registers the tokens and deposits the amount of each.
    pub fn deposit(&mut self, who: &str, t: &str, n: u128) {
        self.one(who, "register_tokens", json!({"token_ids": [t]}));
        self.mint(t, who, n);
        self.must(who, t, "ft_transfer_call", json!({"receiver_id": EX, "amount": n.to_string(), "msg": ""}), 1);
        let d = dep(&self.env, &self.w, who, t);
        assert!(d >= n, "SETUP_FAILED deposit of {} {} credited {}", n, t, d);
    }
    pub fn simple_pool(&mut self, a: &str, b: &str, fee: u32) -> u64 {
        let o = self.must(ALICE, EX, "add_simple_pool", json!({"tokens": [a, b], "fee": fee}), NEAR / 10);
        o.json().as_u64().expect("pool id")
    }
    pub fn stable_pool(&mut self, toks: &[&str], dec: &[u8], fee: u32, amp: u64) -> u64 {
        let o = self.must(
            OWNER,
            EX,
            "add_stable_swap_pool",
            json!({"tokens": toks, "decimals": dec, "fee": fee, "amp_factor": amp}),
            NEAR / 5,
        );
        o.json().as_u64().expect("pool id")
    }
    pub fn pool_of(&mut self, method: &str, toks: &[&str], dec: &[u8], fee: u32, amp: u64) -> u64 {
        let o =
            self.must(OWNER, EX, method, json!({"tokens": toks, "decimals": dec, "fee": fee, "amp_factor": amp}), NEAR / 5);
        o.json().as_u64().expect("pool id")
    }
    pub fn add_liq(&mut self, who: &str, pool: u64, am: &[u128]) -> Outcome {
        self.must(who, EX, "add_liquidity", json!({"pool_id": pool, "amounts": strs(am)}), NEAR / 10)
    }
    pub fn add_stable(&mut self, who: &str, pool: u64, am: &[u128]) -> Outcome {
        self.must(
            who,
            EX,
            "add_stable_liquidity",
            json!({"pool_id": pool, "amounts": strs(am), "min_shares": "0"}),
            NEAR / 10,
        )
    }
}

pub fn strs(v: &[u128]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}
pub fn u(v: &Value) -> u128 {
    match v {
        Value::String(s) => s.parse().unwrap_or_else(|_| panic!("VIEW_FAILED not a number({})", s)),
        Value::Number(n) => n.as_u64().unwrap_or(0) as u128,
        _ => panic!("VIEW_FAILED not a number({})", v),
    }
}
pub fn us(v: &Value) -> Vec<u128> {
    v.as_array().map(|a| a.iter().map(u).collect()).unwrap_or_default()
}
pub fn big(x: u128) -> BigInt {
    BigInt::from(x)
}

/// Exchange deployed with users registered; `codes` are shared between scenarios.
pub fn exchange(ex: &Arc<Code>, exchange_fee: u32, referral_fee: u32) -> Sb {
    let mut env = Env::new();
    env.codes.insert(EX, ex.clone());
    for t in [T1, T2, T3] {
        env.actors.insert(t.into(), Actor::Token { fail: false });
    }
    env.actors.insert(WNEAR.into(), Actor::Wnear { fail: false });
    let mut w = World::new();
    w.kv.insert(EX, Kv::new());
    w.add_near(EX, 1000 * NEAR as i128);
    let mut s = Sb { env, w };
    s.must(
        OWNER,
        EX,
        "new",
        json!({"owner_id": OWNER, "boost_farm_id": BOOST, "burrowland_id": BURROW,
               "exchange_fee": exchange_fee, "referral_fee": referral_fee}),
        0,
    );
    s.one(OWNER, "modify_wnear_id", json!({ "wnear_id": WNEAR }));
    s.one(OWNER, "extend_guardians", json!({"guardians": [GUARD]}));
    s.one(OWNER, "extend_whitelisted_tokens", json!({"tokens": [T1, T2, T3, WNEAR]}));
    s
}

pub fn dep(env: &Env, w: &World, who: &str, t: &str) -> u128 {
    u(&env.view(w, EX).get("get_deposit", json!({"account_id": who, "token_id": t})))
}

#[derive(Clone, Debug, PartialEq)]
pub struct PoolObs {
    pub kind: String,
    pub tokens: Vec<String>,
    pub amounts: Vec<u128>,
    pub fee: u128,
    pub supply: u128,
    pub amp: u128,
}
pub fn pool(v: &Viewer, id: u64) -> PoolObs {
    let p = v.get("get_pool", json!({ "pool_id": id }));
    PoolObs {
        kind: p["pool_kind"].as_str().unwrap_or("").into(),
        tokens: p["token_account_ids"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
        amounts: us(&p["amounts"]),
        fee: u(&p["total_fee"]),
        supply: u(&p["shares_total_supply"]),
        amp: u(&p["amp"]),
    }
}
pub fn shares(v: &Viewer, id: u64, who: &str) -> u128 {
    u(&v.get("get_pool_shares", json!({"pool_id": id, "account_id": who})))
}
pub fn deposits(v: &Viewer, who: &str) -> BTreeMap<String, u128> {
    v.get("get_deposits", json!({ "account_id": who }))
        .as_object()
        .map(|o| o.iter().map(|(k, x)| (k.clone(), u(x))).collect())
        .unwrap_or_default()
}
pub fn deposit_v(v: &Viewer, who: &str, t: &str) -> u128 {
    u(&v.get("get_deposit", json!({"account_id": who, "token_id": t})))
}
pub fn lostfound(v: &Viewer, who: &str, t: &str) -> u128 {
    u(&v.get("get_lostfound_token", json!({"account_id": who, "token_id": t})))
}
pub fn registered(v: &Viewer, who: &str) -> bool {
    !v.get("storage_balance_of", json!({ "account_id": who })).is_null()
}

/// Per pool: (pledged to the farm, pledged to the lending market).
pub fn shadow(v: &Viewer, who: &str) -> BTreeMap<u64, (u128, u128)> {
    v.get("get_shadow_records", json!({ "account_id": who }))
        .as_object()
        .map(|o| {
            o.iter()
                .map(|(k, x)| {
                    (k.parse().unwrap(), (u(&x["shadow_in_farm"]), u(&x["shadow_in_burrow"])))
                })
                .collect()
        })
        .unwrap_or_default()
}

/// Everything the exchange owes per token, by public views: inner accounts, pools, lost-and-found,
/// and what is in flight according to the world.
pub fn books(v: &Viewer, accounts: &[&str]) -> BTreeMap<String, BigInt> {
    let mut m: BTreeMap<String, BigInt> = BTreeMap::new();
    for a in accounts {
        for (t, n) in deposits(v, a) {
            *m.entry(t).or_default() += n;
        }
        for (t, n) in lostfounds(v, a) {
            *m.entry(t).or_default() += n;
        }
    }
    for p in v.get("get_pools", json!({"from_index": 0, "limit": 100})).as_array().unwrap() {
        let am = us(&p["amounts"]);
        for (i, t) in p["token_account_ids"].as_array().unwrap().iter().enumerate() {
            *m.entry(t.as_str().unwrap().to_string()).or_default() += am[i];
        }
    }
    m
}
pub fn lostfounds(v: &Viewer, who: &str) -> BTreeMap<String, u128> {
    v.get("list_lostfound_tokens", json!({ "account_id": who }))
        .as_object()
        .map(|o| o.iter().map(|(k, x)| (k.clone(), u(x))).collect())
        .unwrap_or_default()
}

/// Tokens on the contract's ledger that belong to a transfer still in flight.
pub fn inflight(w: &World, me: &str, token: &str) -> BigInt {
    let mut s = BigInt::from(0);
    for r in &w.pending {
        if let Some(Action::Call { method, args, .. }) = r.actions.last() {
            let a: Value = serde_json::from_slice(args).unwrap_or(Value::Null);
            let n = a["amount"].as_str().and_then(|x| x.parse::<u128>().ok()).unwrap_or(0);
            if r.recv == token && r.pred == me && ["ft_transfer", "ft_transfer_call", "near_withdraw"].contains(&&method[..]) {
                s += n;
            }
            if r.pred == token && r.recv == me && method == "ft_on_transfer" {
                s += n;
            }
            if r.pred == me && method == "mft_transfer" && ledger(&r.recv, &a) == token {
                s += n;
            }
            if r.recv == me && method == "mft_on_transfer" && ledger(&r.pred, &a) == token {
                s += n;
            }
        }
    }
    for l in w.limbo.values() {
        for (t, n) in l {
            if t == token {
                s += *n;
            }
        }
    }
    s
}

/// Σ of all holders' shares equals the supply, for every pool.
pub fn supply_inv(v: &Viewer, accounts: &[&str], pools: u64) -> R {
    for p in 0..pools {
        let o = pool(v, p);
        let mut s = BigInt::from(0);
        for a in accounts {
            s += shares(v, p, a);
        }
        ensure!(s == big(o.supply), format!("supply:{}", o.kind), "pool {} ({}): holders have {} shares, supply is {}", p, o.kind, s, o.supply);
        let t = u(&v.get("get_pool_total_shares", json!({ "pool_id": p })));
        ensure!(t == o.supply, "supply:views", "pool {}: total shares {} vs {}", p, t, o.supply);
    }
    Ok(())
}

pub fn unexpected(key: &str, o: &Outcome) -> R {
    fail!(key, "call refused: {}", o.err)
}

/// Contract's holdings minus (its books + transfers in flight), per token.
pub fn custody_gap(w: &World, v: &Viewer, accounts: &[&str], tokens: &[&str]) -> Vec<(String, BigInt, String)> {
    let m = books(v, accounts);
    tokens
        .iter()
        .map(|t| {
            let s = m.get(*t).cloned().unwrap_or_default() + inflight(w, EX, t) + w.g(&format!("unmanaged.{}", t));
            let have = big(w.bal(t, EX));
            (t.to_string(), have.clone() - s.clone(), format!("token {}: contract holds {}, its books and transfers in flight say {}", t, have, s))
        })
        .collect()
}
pub fn custody_inv(w: &World, v: &Viewer, accounts: &[&str], tokens: &[&str]) -> R {
    for (_, gap, msg) in custody_gap(w, v, accounts, tokens) {
        ensure!(gap == big(0), "custody", "{}", msg);
    }
    Ok(())
}

pub fn small_u128(x: &BigInt) -> u128 {
    x.to_string().parse().unwrap_or_else(|_| panic!("VIEW_FAILED not a balance({})", x))
}
