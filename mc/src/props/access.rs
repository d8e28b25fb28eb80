//! E11 who may do what, E12 pause, E13 frozen tokens, E15 listed tokens, E29 nobody else's funds.
use super::*;
use crate::chain::*;
use crate::ensure;
use crate::exh::*;
use crate::explore::*;
use crate::ops::*;
use crate::props::custody::*;
use crate::props::shares::rec;
use crate::rates::*;
use crate::vm::*;
use crate::Ctx;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::sync::Arc;

pub const DAN: &str = "dan.test";
pub const ORA2: &str = "oracle2.test";
const MX: &str = "80000000000000000000000000000000000000";

#[derive(Clone, Copy, PartialEq)]
enum Role {
    Owner,
    Guardian,
    Burrow,
    Myself,
    Nobody,
    User(&'static str),
}
#[derive(Clone, Copy, PartialEq)]
enum Pay {
    /// Exactly one yoctoNEAR.
    One,
    /// No such rule; calls are made with this much.
    Any(u128),
}
#[derive(Clone)]
struct Priv {
    m: &'static str,
    args: Value,
    role: Role,
    pay: Pay,
    /// In which running state the call is valid (None: both).
    running: Option<bool>,
}

fn full(cx: &Ctx) -> Sb {
    let mut s = family(cx);
    tokens(&mut s, &[NX, SF, FRAX]);
    for a in [DAN, GUARD] {
        s.storage(a, NEAR / 10);
    }
    s.env.actors.insert(BOOST.into(), Actor::Shadow);
    s.env.actors.insert(BURROW.into(), Actor::Shadow);
    s.env.actors.insert(DAN.into(), Actor::Menu(vec![("mft_on_transfer", vec![Reply::Ok("\"0\"".into())])]));
    s.one(OWNER, "extend_auto_whitelisted_postfix", json!({"postfixes": [".listed"]}));
    s.one(OWNER, "extend_frozenlist_tokens", json!({"tokens": [FRAX]}));
    s.one(OWNER, "extend_client_echo_token_id_whitelist", json!({"token_ids": ["a.test"]}));
    s.one(OWNER, "extend_client_echo_sender_id_whitelist", json!({"sender_ids": ["a.test"]}));
    s.one(OWNER, "extend_secure_sender_whitelist", json!({"sender_ids": ["a.test"]}));
    s.one(OWNER, "register_rated_token", json!({"rate_type": "SFRAX", "token_id": SF, "extra_info": sfrax_oracle(60)}));
    for a in [OWNER, BOB, GUARD, ALICE] {
        s.deposit(a, T1, 1_000_000);
        s.deposit(a, T2, 1_000_000);
    }
    // two more pools of the degen kind: one with a limit
    s.pool_of("add_degen_swap_pool", &[T1, USD], &[18, 6], 15, 30);
    s.one(OWNER, "add_degen_pool_limit", json!({"pool_id": 5, "degen_pool_limit_info": {"tvl_limit": "1000000"}}));
    s.one(OWNER, "register_pool_twap_record", json!({"pool_id": 3}));
    // exchange fee shares, pledged shares, a lost-and-found entry
    s.must(BOB, EX, "swap", json!({"actions": [act(0, T1, T2, Some(100 * E18), 1)]}), 1);
    s.must(BOB, EX, "swap", json!({"actions": [act(3, T2, T3, Some(100 * E18), 1)]}), 1);
    s.add_liq(BOB, 0, &[1_000 * E18, 3_000 * E18]);
    s.must(ALICE, EX, "shadow_action", json!({"action": "ToBurrowland", "pool_id": 0, "amount": "1000000", "msg": ""}), NEAR / 50);
    s.env.actors.insert(T3.into(), Actor::Token { fail: true });
    s.one(DAN, "storage_withdraw", json!({}));
    let mut ch = Chooser::new(vec![1]);
    let msg = json!({"actions": [act(3, T2, T3, None, 1)], "swap_out_recipient": DAN}).to_string();
    s.env.submit(&mut s.w, &mut ch, CAROL, T2, "ft_transfer_call", json!({"receiver_id": EX, "amount": "1000000", "msg": msg}), 1);
    s.env.settle(&mut s.w, &mut ch, &mut vec![]);
    s.env.cleanup(&mut s.w);
    s.env.actors.insert(T3.into(), Actor::Token { fail: false });
    let v = s.env.view(&s.w, EX);
    assert!(lostfound(&v, DAN, T3) > 0, "SETUP_FAILED no lost-and-found entry");
    s.must(DAN, EX, "mft_register", json!({"token_id": ":0", "account_id": DAN}), NEAR / 10);
    s.storage(CAROL, NEAR / 10);
    s.one(ALICE, "register_tokens", json!({"token_ids": [NX]}));
    // let a day go by so that an amplification can be changed; prices and rates are renewed
    s.w.ts += 3 * DAY;
    for t in [ST, LI] {
        s.must(CAROL, EX, "update_token_rate", json!({ "token_id": t }), 0);
    }
    for t in [T1, USD] {
        s.must(CAROL, EX, "update_degen_token_price", json!({ "token_id": t }), 0);
    }
    let t = s.w.ts + 2 * DAY;
    s.one(OWNER, "stable_swap_ramp_amp", json!({"pool_id": 4, "future_amp_factor": 150, "future_amp_time": t.to_string()}));
    s
}
pub fn sfrax_oracle(stale: u32) -> String {
    json!({"PriceOracle": {"oracle_id": ORA, "base_contract_id": FRAX, "maximum_recency_duration_sec": 90, "maximum_staleness_duration_sec": stale}}).to_string()
}

fn table(ts: u64) -> Vec<Priv> {
    let mut v: Vec<Priv> = vec![];
    let mut p = |m: &'static str, args: Value, role: Role, pay: Pay, running: Option<bool>| v.push(Priv { m, args, role, pay, running });
    use Pay::*;
    use Role::*;
    p("set_owner", json!({ "owner_id": "new.test" }), Owner, One, None);
    p("retrieve_unmanaged_token", json!({"token_id": T1, "amount": "1"}), Owner, One, None);
    p("extend_guardians", json!({"guardians": ["new.test"]}), Owner, One, None);
    p("remove_guardians", json!({"guardians": ["second.test"]}), Owner, One, None);
    p("modify_wnear_id", json!({"wnear_id": "new.test"}), Owner, One, None);
    p("change_state", json!({"state": "Running"}), Owner, One, Some(false));
    p("change_state", json!({"state": "Paused"}), Guardian, One, Some(true));
    p("modify_admin_fee", json!({"admin_fee_bps": 777}), Owner, One, None);
    p("unregister_rated_token", json!({ "token_id": LI }), Owner, One, None);
    p("unregister_degen_token", json!({ "token_id": T1 }), Owner, One, None);
    p("update_degen_token", json!({"token_id": T1, "degen_type": {"PriceOracle": {"decimals": 9}}}), Owner, One, None);
    p("update_degen_oracle_config", json!({"degen_oracle_config": {"PriceOracle": {"oracle_id": ORA2, "expire_ts": "1", "maximum_recency_duration_sec": 1, "maximum_staleness_duration_sec": 1}}}), Owner, One, None);
    p("register_degen_oracle_config", json!({"degen_oracle_config": {"PythOracle": {"oracle_id": "new.test", "expire_ts": "1", "pyth_price_valid_duration_sec": 1}}}), Guardian, One, None);
    p("unregister_degen_oracle_config", json!({"degen_oracle_config_key": "PythOracleConfig"}), Owner, One, None);
    p("update_degen_pool_limit", json!({"pool_id": 5, "degen_pool_limit_info": {"tvl_limit": "7"}}), Owner, One, None);
    p("remove_pool_limit", json!({"pool_id": 5}), Owner, One, None);
    p("remove_client_echo_token_id_whitelist", json!({"token_ids": ["a.test"]}), Owner, One, None);
    p("remove_client_echo_sender_id_whitelist", json!({"sender_ids": ["a.test"]}), Owner, One, None);
    p("remove_secure_sender_whitelist", json!({"sender_ids": ["a.test"]}), Owner, One, None);

    p("extend_auto_whitelisted_postfix", json!({"postfixes": [".new"]}), Guardian, One, None);
    p("remove_auto_whitelisted_postfix", json!({"postfixes": [".listed"]}), Guardian, One, None);
    p("modify_boost_farm_id", json!({"boost_farm_id": "new.test"}), Guardian, One, None);
    p("modify_burrowland_id", json!({"burrowland_id": "new.test"}), Guardian, One, None);
    p("extend_whitelisted_tokens", json!({"tokens": ["new.test"]}), Guardian, One, None);
    p("remove_whitelisted_tokens", json!({ "tokens": [T2] }), Guardian, One, None);
    p("extend_frozenlist_tokens", json!({ "tokens": [T1] }), Guardian, One, None);
    p("remove_frozenlist_tokens", json!({ "tokens": [FRAX] }), Guardian, One, None);
    p("insert_referral", json!({"referral_id": "new.test", "fee_bps": 7}), Guardian, One, None);
    p("update_referral", json!({"referral_id": REF, "fee_bps": 7}), Guardian, One, None);
    p("remove_referral", json!({ "referral_id": REF }), Guardian, One, None);
    p("modify_total_fee", json!({"pool_id": 0, "total_fee": 77}), Guardian, One, None);
    p("remove_exchange_fee_liquidity", json!({"pool_id": 0, "shares": "5", "min_amounts": ["0", "0"]}), Guardian, One, Some(true));
    p("withdraw_owner_token", json!({"token_id": T1, "amount": "5"}), Guardian, One, Some(true));
    p("stable_swap_ramp_amp", json!({"pool_id": 3, "future_amp_factor": 300, "future_amp_time": (ts + 2 * DAY).to_string()}), Guardian, One, None);
    p("stable_swap_stop_ramp_amp", json!({"pool_id": 4}), Guardian, One, None);
    p("register_rated_token", json!({"rate_type": "NEARX", "token_id": NX}), Guardian, One, None);
    p("update_rated_token_extra_info", json!({"token_id": SF, "extra_info": sfrax_oracle(61)}), Guardian, One, None);
    p("register_degen_token", json!({"token_id": T2, "degen_type": {"PriceOracle": {"decimals": 18}}}), Guardian, One, None);
    p("add_degen_pool_limit", json!({"pool_id": 2, "degen_pool_limit_info": {"tvl_limit": "7"}}), Guardian, One, None);
    p("extend_client_echo_token_id_whitelist", json!({"token_ids": ["new.test"]}), Guardian, One, None);
    p("extend_client_echo_sender_id_whitelist", json!({"sender_ids": ["new.test"]}), Guardian, One, None);
    p("extend_secure_sender_whitelist", json!({"sender_ids": ["new.test"]}), Guardian, One, None);
    p("register_pool_twap_record", json!({"pool_id": 1}), Guardian, One, None);
    p("unregister_pool_twap_record", json!({"pool_id": 3}), Guardian, One, None);
    p("modify_cumulative_info_record_interval_sec", json!({"record_interval_sec": 7}), Guardian, One, None);
    p("add_stable_swap_pool", json!({"tokens": [T1, T2], "decimals": [18, 18], "fee": 5, "amp_factor": 100}), Guardian, Any(NEAR / 5), None);
    p("add_rated_swap_pool", json!({"tokens": [WNEAR, ST], "decimals": [24, 24], "fee": 5, "amp_factor": 100}), Guardian, Any(NEAR / 5), None);
    p("add_degen_swap_pool", json!({"tokens": [T1, USD], "decimals": [18, 6], "fee": 5, "amp_factor": 100}), Guardian, Any(NEAR / 5), None);

    p("on_burrow_liquidation", json!({"liquidator_account_id": BOB, "liquidation_account_id": ALICE, "shadow_id": "shadow_ref_v1-0", "liquidate_share_amount": "1000", "min_token_amounts": ["0", "0"]}), Burrow, Any(0), None);
    p("migrate", json!({}), Myself, Any(0), None);
    p("new", json!({"owner_id": BOB, "boost_farm_id": BOOST, "burrowland_id": BURROW, "exchange_fee": 0, "referral_fee": 0}), Nobody, Any(0), None);

    // what an ordinary user signs for: an access key without full rights cannot attach NEAR
    let u = User;
    p("register_tokens", json!({"token_ids": ["new.test"]}), u(BOB), One, Some(true));
    p("unregister_tokens", json!({ "token_ids": [NX] }), u(ALICE), One, Some(true));
    p("withdraw", json!({"token_id": T1, "amount": "5"}), u(ALICE), One, Some(true));
    p("withdraw", json!({"token_id": WNEAR, "amount": "5", "skip_unwrap_near": false}), u(ALICE), One, Some(true));
    p("claim_lostfound", json!({ "token_id": T3 }), u(DAN), One, Some(true));
    p("storage_withdraw", json!({"amount": "1"}), u(ALICE), One, Some(true));
    p("storage_unregister", json!({}), u(DAN), One, Some(true));
    p("remove_liquidity", json!({"pool_id": 0, "shares": "500000", "min_amounts": ["0", "0"]}), u(BOB), One, Some(true));
    p("remove_liquidity_by_tokens", json!({"pool_id": 4, "amounts": ["500000", "0"], "max_burn_shares": MX}), u(BOB), One, Some(true));
    p("mft_unregister", json!({"token_id": ":0"}), u(DAN), One, Some(true));
    p("mft_transfer", json!({"token_id": ":0", "receiver_id": DAN, "amount": "5"}), u(ALICE), One, Some(true));
    p("mft_transfer", json!({"token_id": T1, "receiver_id": CAROL, "amount": "5"}), u(ALICE), One, Some(true));
    p("mft_transfer_call", json!({"token_id": ":0", "receiver_id": DAN, "amount": "5", "msg": ""}), u(ALICE), One, Some(true));
    p("mft_transfer_all_call", json!({"token_id": ":0", "receiver_id": DAN, "msg": ""}), u(ALICE), One, Some(true));
    p("donation_share", json!({"pool_id": 0, "amount": "5"}), u(ALICE), One, Some(true));
    p("donation_token", json!({"token_id": T1, "amount": "5"}), u(ALICE), One, Some(true));
    v
}

/// Did the call change anything of the exchange, or start anything?
fn effect(a: &World, b: &World, o: &Outcome) -> Option<String> {
    if a.kv[EX].digest() != b.kv[EX].digest() {
        return Some("changed the exchange's state".into());
    }
    // (the first receipt is the call itself)
    if let Some(e) = o.execs.iter().skip(1).find(|e| e.pred == EX) {
        return Some(format!("made the exchange call {}.{}", e.recv, e.method));
    }
    if a.tok != b.tok {
        return Some("moved tokens".into());
    }
    if a.near_of(EX) != b.near_of(EX) {
        return Some("left NEAR with the exchange".into());
    }
    None
}
fn none(a: &World, b: &World, o: &Outcome) -> Option<String> {
    if o.ok && o.execs.len() == 1 {
        // accepted without any effect: harmless
        return effect(a, b, o).filter(|e| !e.contains("NEAR"));
    }
    effect(a, b, o)
}

fn probe(p: Priv) -> Op {
    let name = format!("everyone tries {} {}", p.m, p.args);
    op(name, move |x| {
        let v = x.view(EX);
        let md = v.get("metadata", json!({}));
        let owner = v.get("get_owner", json!({})).as_str().unwrap_or("").to_string();
        let guards: Vec<String> = md["guardians"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
        let running = md["state"].as_str() == Some("Running");
        let before = x.w.clone();
        if p.m == "register_degen_oracle_config" {
            // both kinds are registered already: make room for one
            let o = x.call(&owner, EX, "unregister_degen_oracle_config", json!({"degen_oracle_config_key": "PythOracleConfig"}), 1);
            ensure!(o.ok, "e11:refused:unregister_degen_oracle_config", "the owner {} cannot unregister the Pyth oracle: {}", owner, o.err);
        }
        let w0 = x.w.clone();
        let (mut yes, mut no) = (0, 0);
        let callers: Vec<&str> = match p.role {
            Role::User(u) => vec![u],
            _ => vec![OWNER, GUARD, ALICE, BOB, CAROL, EX, BURROW, BOOST],
        };
        for who in callers {
            for dep in match p.pay {
                Pay::One => vec![0, 1, 2, NEAR / 10],
                Pay::Any(n) => vec![n],
            } {
                x.w = w0.clone();
                let o = x.call(who, EX, p.m, p.args.clone(), dep);
                let may = match p.role {
                    Role::Owner => who == owner,
                    Role::Guardian => who == owner || guards.iter().any(|g| g == who),
                    Role::Burrow => who == BURROW,
                    Role::Myself => who == EX,
                    Role::Nobody => false,
                    Role::User(_) => true,
                };
                let paid = p.pay != Pay::One || dep == 1;
                if !may || !paid {
                    no += 1;
                    if let Some(e) = none(&w0, &x.w, &o) {
                        fail!(format!("e11:{}", p.m), "{} (owner {}, guardians {:?}) called {}({}) with {} yoctoNEAR and {}", who, owner, guards, p.m, p.args, dep, e);
                    }
                } else if p.running.map(|r| r == running).unwrap_or(true) {
                    yes += 1;
                    // (the yoctoNEAR it paid is no effect; a new version of the same contract has nothing to migrate, and the owner's gift to himself moves nothing)
                    let idle = p.m == "migrate" || p.m.starts_with("donation_") && who == owner;
                    let did = effect(&w0, &x.w, &o).filter(|e| !e.contains("NEAR")).is_some();
                    ensure!(o.ok && (idle || did), format!("e11:refused:{}", p.m), "{} (owner {}, guardians {:?}) may call {}({}) but: {}", who, owner, guards, p.m, p.args, if o.ok { "no effect" } else { &o.err });
                }
            }
        }
        x.w = before;
        x.class = format!("{} accepted, {} without effect", yes, no);
        x.log.clear();
        Ok(())
    })
}
use crate::fail;

/// A receipt as another contract could make it: with results of calls of its own.
pub fn forged(x: &mut X, recv: &str, who: &str, m: &str, args: &Value, res: &[PResult], dep: u128) -> Outcome {
    let mut w = x.w.clone();
    let mut inputs = vec![];
    for r in res {
        w.next += 1;
        let d = w.next;
        w.data.insert(d, r.clone());
        inputs.push(d);
    }
    w.add_near(who, -(dep as i128));
    w.pending.push(Receipt {
        id: 900,
        pred: who.into(),
        recv: recv.into(),
        signer: who.into(),
        actions: vec![Action::Call { method: m.into(), args: args.to_string().into_bytes(), deposit: dep, gas: 300_000_000_000_000 }],
        inputs,
        outs: vec![],
    });
    let i = w.pending.len() - 1;
    let e = x.env.deliver(&mut w, x.ch, i);
    let mut execs = vec![e.clone()];
    x.env.settle(&mut w, x.ch, &mut execs);
    x.env.cleanup(&mut w);
    x.w = w;
    Outcome { ok: e.ok, err: e.err, value: None, execs }
}
fn callbacks() -> Vec<(&'static str, Value)> {
    let n = "1000";
    vec![
        ("exchange_callback_post_withdraw", json!({"token_id": T1, "sender_id": BOB, "amount": n})),
        ("exchange_callback_post_withdraw_with_msg", json!({"token_id": T1, "sender_id": BOB, "amount": n})),
        ("exchange_callback_post_withdraw_near", json!({"sender_id": BOB, "amount": n})),
        ("mft_resolve_transfer", json!({"token_id": ":0", "sender_id": BOB, "receiver_id": ALICE, "amount": n})),
        ("mft_resolve_transfer", json!({"token_id": T1, "sender_id": BOB, "receiver_id": ALICE, "amount": n})),
        ("callback_on_shadow", json!({"action": "FromBurrowland", "sender_id": ALICE, "pool_id": 0, "amount": n})),
        ("callback_on_shadow", json!({"action": "ToBurrowland", "sender_id": ALICE, "pool_id": 0, "amount": n})),
        ("callback_on_burrow_liquidation", json!({"sender_id": ALICE, "pool_id": 0, "amount": n})),
        ("update_token_rate_callback", json!({ "token_id": ST })),
        ("update_token_rate_callback", json!({ "token_id": SF })),
        ("update_degen_token_price_callback", json!({ "token_id": T1 })),
        ("update_degen_token_price_callback", json!({ "token_id": USD })),
        ("batch_update_degen_token_by_price_oracle_callback", json!({"token_id_decimals_map": {T1: 18}})),
        ("batch_update_degen_token_by_pyth_oracle_callback", json!({"price_id_token_id_map": {PID: [USD]}})),
    ]
}
fn forge(m: &'static str, args: Value) -> Op {
    op(format!("everyone forges {} {}", m, args), move |x| {
        let w0 = x.w.clone();
        let one = PResult::Ok(b"\"1300000000000000000000000\"".to_vec());
        let pd = PResult::Ok(price_data(&w0, &json!({"asset_ids": [T1]}), 0, 60, &[(T1, 99, 22)]).into_bytes());
        let pf = PResult::Ok(price_data(&w0, &json!({"asset_ids": [FRAX, SF]}), 0, 60, &[(SF, 105, 4), (FRAX, 100, 4)]).into_bytes());
        let py = PResult::Ok(pyth_price(&w0, 0, 77_000_000, -8).to_string().into_bytes());
        let pm = PResult::Ok(json!({PID: pyth_price(&w0, 0, 77_000_000, -8)}).to_string().into_bytes());
        let sets: Vec<Vec<PResult>> = vec![
            vec![],
            vec![PResult::Failed],
            vec![PResult::Ok(vec![])],
            vec![PResult::Ok(b"\"1000\"".to_vec())],
            vec![one],
            vec![pd],
            vec![pf],
            vec![py.clone()],
            vec![pm],
            vec![py.clone(), py],
        ];
        let mut n = 0;
        let mut own = false;
        for set in &sets {
            for who in [OWNER, GUARD, ALICE, BOB, BOOST, BURROW, T1, ORA] {
                x.w = w0.clone();
                let o = forged(x, EX, who, m, &args, set, 0);
                n += 1;
                if let Some(e) = none(&w0, &x.w, &o) {
                    fail!(format!("e11:callback:{}", m), "{} called {}({}) itself, with results {:?}, and {}", who, m, args, set, e);
                }
            }
            // the same call by the exchange itself does work: the forgery is not refused for another reason
            x.w = w0.clone();
            let o = forged(x, EX, EX, m, &args, set, 0);
            own |= o.ok;
        }
        ensure!(own, "e11:callback:own", "the exchange's own callback {}({}) is refused for every answer", m, args);
        x.w = w0;
        x.class = format!("{} forgeries", n);
        Ok(())
    })
}

pub fn e11(cx: &Ctx) -> Mk {
    vec![mk(cx, "who may do what", move |cx| {
        let mut s = full(cx);
        s.one(OWNER, "extend_guardians", json!({"guardians": ["second.test"]}));
        let mut sc = Scenario::new("", s.env, s.w);
        let ts = sc.init.ts;
        sc.depth = 4;
        sc.ops = vec![
            tx(OWNER, EX, "set_owner", json!({ "owner_id": ALICE }), 1),
            tx(ALICE, EX, "set_owner", json!({ "owner_id": OWNER }), 1),
            tx(OWNER, EX, "extend_guardians", json!({"guardians": [BOB]}), 1),
            tx(ALICE, EX, "remove_guardians", json!({"guardians": [GUARD]}), 1),
            tx(BOB, EX, "change_state", json!({"state": "Paused"}), 1),
            tx(GUARD, EX, "change_state", json!({"state": "Paused"}), 1),
            tx(ALICE, EX, "change_state", json!({"state": "Running"}), 1),
        ];
        for p in table(ts) {
            sc.ops.push(probe(p));
        }
        for (m, a) in callbacks() {
            sc.ops.push(forge(m, a));
        }
        sc.ops.push(op("everyone tries upgrade", move |x| {
            let w0 = x.w.clone();
            let owner = x.view(EX).get("get_owner", json!({})).as_str().unwrap_or("").to_string();
            for who in [OWNER, GUARD, ALICE, BOB, EX] {
                x.w = w0.clone();
                let o = x.call_raw(who, EX, "upgrade", vec![0, 97, 115, 109], 0);
                if who != owner {
                    if let Some(e) = none(&w0, &x.w, &o) {
                        fail!("e11:upgrade", "{} (owner is {}) called upgrade and {}", who, owner, e);
                    }
                } else {
                    ensure!(o.ok && o.execs.len() > 1, "e11:refused:upgrade", "the owner {} cannot upgrade: {}", who, o.err);
                }
            }
            x.w = w0;
            x.log.clear();
            x.class = "upgrade".into();
            Ok(())
        }));
        sc
    })]
}

// ---------------------------------------------------------------- users' operations

pub struct UOp {
    pub name: String,
    /// Tokens the operation deals with: freezing any of them must stop it.
    pub toks: Vec<&'static str>,
    /// Runs on while the exchange is paused.
    pub always: bool,
    pub f: Arc<dyn Fn(&mut X) -> Outcome + Send + Sync>,
}
fn uo(name: &str, toks: &[&'static str], who: &'static str, recv: &'static str, m: &'static str, args: Value, dep: u128) -> UOp {
    let n = format!("{} {} {}", short(who), m, name);
    UOp { name: n, toks: toks.to_vec(), always: false, f: Arc::new(move |x| x.call(who, recv, m, args.clone(), dep)) }
}
fn send(name: &str, toks: &[&'static str], who: &'static str, tok: &'static str, n: u128, msg: Value) -> UOp {
    let msg = match msg {
        Value::String(s) => s,
        v => v.to_string(),
    };
    uo(name, toks, who, tok, "ft_transfer_call", json!({"receiver_id": EX, "amount": n.to_string(), "msg": msg}), 1)
}

/// Every kind of user operation, each valid in the initial state of `users`.
pub fn uops() -> Vec<UOp> {
    let mut v = vec![];
    let q = E18;
    v.push(send("deposit t1", &[T1], ALICE, T1, 17, json!("")));
    v.push(send("deposit wnear", &[WNEAR], BOB, WNEAR, 17, json!("")));
    v.push(send("instant t1>t2", &[T1, T2], ALICE, T1, 100 * q, json!({"actions": [act(0, T1, T2, None, 0)]})));
    v.push(send("instant t2>near", &[T2, WNEAR], CAROL, T2, 100 * q, json!({"actions": [act(1, T2, WNEAR, None, 0)], "skip_unwrap_near": false})));
    v.push(send("instant by output t1>t2", &[T1, T2], CAROL, T1, 100 * q, json!({"actions": [act_out(0, T1, T2, Some(q), None)]})));
    v.push(send("instant t1>t3>t2", &[T1, T2, T3], CAROL, T1, 100 * q, json!({"actions": [act(2, T1, T3, None, 0), act(2, T3, T2, None, 0)]})));
    v.push(send("zap simple", &[T1, T2], ALICE, T1, 100 * q, json!({"hot_zap_actions": [act(0, T1, T2, Some(60 * q), 0)], "add_liquidity_infos": [{"pool_id": 0, "amounts": strs(&[40 * q, 100 * q]), "min_amounts": ["0", "0"]}]})));
    v.push(send("zap stable", &[T1, T2, T3], BOB, T1, 100 * q, json!({"hot_zap_actions": [act(0, T1, T2, Some(60 * q), 0)], "add_liquidity_infos": [{"pool_id": 2, "amounts": strs(&[40 * q, 100 * q, 0]), "min_shares": "0"}]})));
    v.push(uo("t1", &[T1], ALICE, EX, "withdraw", json!({"token_id": T1, "amount": "11"}), 1));
    v.push(uo("all t3, unregister", &[T3], BOB, EX, "withdraw", json!({"token_id": T3, "amount": "0", "unregister": true}), 1));
    v.push(uo("near", &[WNEAR], ALICE, EX, "withdraw", json!({"token_id": WNEAR, "amount": "110", "skip_unwrap_near": false}), 1));
    v.push(uo("t3", &[T3], DAN, EX, "claim_lostfound", json!({ "token_id": T3 }), 1));
    v.push(uo("t1>t2", &[T1, T2], ALICE, EX, "swap", json!({"actions": [act(0, T1, T2, Some(777 * q), 1)]}), 1));
    v.push(uo("t1>t3", &[T1, T3], ALICE, EX, "swap", json!({"actions": [act(2, T1, T3, Some(777 * q), 1)]}), 0));
    v.push(uo("t2>near out", &[T2, WNEAR], ALICE, EX, "swap_by_output", json!({"actions": [act_out(1, T2, WNEAR, Some(9 * q), None)]}), 1));
    v.push(uo("two swaps", &[T1, T2, WNEAR], ALICE, EX, "execute_actions", json!({"actions": [act(0, T1, T2, Some(q), 1), act(1, T2, WNEAR, Some(q), 1)]}), 1));
    v.push(uo("t1>t2", &[T1, T2], BOB, EX, "execute_actions_in_va", json!({"use_tokens": {T1: "1000000000000000000"}, "actions": [act(0, T1, T2, Some(q / 2), 0)]}), 1));
    v.push(uo("pool 0", &[T1, T2], BOB, EX, "add_liquidity", json!({"pool_id": 0, "amounts": strs(&[500 * q, 1_500 * q])}), NEAR / 100));
    v.push(uo("pool 2", &[T1, T2, T3], BOB, EX, "add_stable_liquidity", json!({"pool_id": 2, "amounts": strs(&[500 * q, 0, 0]), "min_shares": "0"}), NEAR / 100));
    v.push(uo("pool 0", &[T1, T2], BOB, EX, "remove_liquidity", json!({"pool_id": 0, "shares": "4000000000000000000", "min_amounts": ["0", "0"]}), 1));
    v.push(uo("pool 2", &[T1, T2, T3], ALICE, EX, "remove_liquidity", json!({"pool_id": 2, "shares": "4000000000000000000", "min_amounts": ["0", "0", "0"]}), 1));
    v.push(uo("pool 2, only t3", &[T1, T2, T3], ALICE, EX, "remove_liquidity_by_tokens", json!({"pool_id": 2, "amounts": strs(&[0, 0, q]), "max_burn_shares": MX}), 1));
    v.push(uo("shares", &[], ALICE, EX, "mft_transfer", json!({"token_id": ":0", "receiver_id": BOB, "amount": "7"}), 1));
    v.push(uo("t2", &[], ALICE, EX, "mft_transfer", json!({"token_id": T2, "receiver_id": BOB, "amount": "7"}), 1));
    v.push(uo("shares", &[], ALICE, EX, "mft_transfer_call", json!({"token_id": ":0", "receiver_id": DAN, "amount": "7", "msg": ""}), 1));
    v.push(uo("shares", &[], BOB, EX, "mft_transfer_all_call", json!({"token_id": ":0", "receiver_id": DAN, "msg": ""}), 1));
    v.push(uo("pool 1", &[], BOB, EX, "mft_register", json!({"token_id": ":1", "account_id": BOB}), NEAR / 100));
    v.push(uo("pool 1", &[], CAROL, EX, "mft_unregister", json!({"token_id": ":1"}), 1));
    v.push(uo("pool 0", &[], ALICE, EX, "donation_share", json!({"pool_id": 0, "amount": "7"}), 1));
    v.push(uo("t2", &[], ALICE, EX, "donation_token", json!({"token_id": T2, "amount": "7"}), 1));
    v.push(uo("farm", &[], ALICE, EX, "shadow_action", json!({"action": "ToFarming", "pool_id": 0, "amount": "7", "msg": ""}), NEAR / 50));
    v.push(uo("back from lending", &[], ALICE, EX, "shadow_action", json!({"action": "FromBurrowland", "pool_id": 0, "amount": "7", "msg": ""}), 0));
    v.push(uo("new", &[], ALICE, EX, "register_tokens", json!({"token_ids": ["new.test"]}), 1));
    v.push(uo("wnear", &[], CAROL, EX, "unregister_tokens", json!({ "token_ids": [WNEAR] }), 1));
    v.push(uo("own", &[], ALICE, EX, "storage_deposit", json!({}), NEAR / 100));
    v.push(uo("new account", &[], ALICE, EX, "storage_deposit", json!({"account_id": "new.test", "registration_only": true}), NEAR / 100));
    v.push(uo("some", &[], ALICE, EX, "storage_withdraw", json!({"amount": "5"}), 1));
    v.push(uo("leaves", &[], DAN, EX, "storage_unregister", json!({}), 1));
    v.push(uo("t2/t3", &[], BOB, EX, "add_simple_pool", json!({"tokens": [T2, T3], "fee": 30}), NEAR / 10));
    let mut l = uo("1000 of alice", &[T1, T2], BURROW, EX, "on_burrow_liquidation", json!({"liquidator_account_id": BOB, "liquidation_account_id": ALICE, "shadow_id": "shadow_ref_v1-0", "liquidate_share_amount": "1000", "min_token_amounts": ["0", "0"]}), 0);
    l.always = true;
    v.push(l);
    v
}
/// The mix, with everything the operations above need.
pub fn users(cx: &Ctx) -> Sb {
    let mut s = mix(cx);
    s.env.actors.insert(BOOST.into(), Actor::Shadow);
    s.env.actors.insert(BURROW.into(), Actor::Shadow);
    s.env.max_dev = 0;
    s.env.actors.insert(DAN.into(), Actor::Menu(vec![("mft_on_transfer", vec![Reply::Ok("\"0\"".into())])]));
    s.storage(DAN, NEAR / 10);
    s.one(DAN, "storage_withdraw", json!({}));
    s.env.max_dev = u32::MAX;
    s.env.actors.insert(T3.into(), Actor::Token { fail: true });
    let mut ch = Chooser::new(vec![1]);
    let msg = json!({"actions": [act(2, T2, T3, None, 1)], "swap_out_recipient": DAN}).to_string();
    s.env.submit(&mut s.w, &mut ch, CAROL, T2, "ft_transfer_call", json!({"receiver_id": EX, "amount": "1000000", "msg": msg}), 1);
    s.env.settle(&mut s.w, &mut ch, &mut vec![]);
    s.env.cleanup(&mut s.w);
    s.env.actors.insert(T3.into(), Actor::Token { fail: false });
    s.env.max_dev = 0;
    s.w.devs = 0;
    let v = s.env.view(&s.w, EX);
    assert!(lostfound(&v, DAN, T3) > 0, "SETUP_FAILED no lost-and-found entry");
    s.must(DAN, EX, "mft_register", json!({"token_id": ":0", "account_id": DAN}), NEAR / 10);
    s.must(CAROL, EX, "mft_register", json!({"token_id": ":1", "account_id": CAROL}), NEAR / 10);
    s.one(CAROL, "register_tokens", json!({"token_ids": [WNEAR]}));
    s.must(ALICE, EX, "shadow_action", json!({"action": "ToBurrowland", "pool_id": 0, "amount": "1000000", "msg": ""}), NEAR / 50);
    s.must(OWNER, EX, "storage_deposit", json!({}), NEAR / 10);
    s
}

/// Runs `o` where `stop` says whether it must be stopped; when not, it does what it does in a world
/// where the switches (`off`) are turned off first.
fn switch(o: UOp, key: &'static str, stop: impl Fn(&World, &UOp) -> Option<String> + Send + Sync + 'static, off: impl Fn(&mut X) + Send + Sync + 'static) -> Op {
    op(o.name.clone(), move |x| {
        let w0 = x.w.clone();
        let why = stop(&w0, &o);
        let r = (o.f)(x);
        if let Some(why) = why {
            if let Some(e) = none(&w0, &x.w, &r) {
                fail!(format!("{}:allowed", key), "{}: {} but it {}", o.name, why, e);
            }
            x.class("stopped");
            return Ok(());
        }
        let after = x.w.clone();
        x.w = w0.clone();
        off(x);
        let twin0 = x.w.clone();
        let t = (o.f)(x);
        let same = r.ok == t.ok && effect(&w0, &after, &r).is_some() == effect(&twin0, &x.w, &t).is_some() && after.tok == x.w.tok && (r.ok || after.near == w0.near);
        ensure!(same, format!("{}:refused", key), "{}: nothing stops it, but it was {} ({}) and would be {} ({}) with everything switched off", o.name, r.ok, r.err, t.ok, t.err);
        if w0.notes.get("ops").is_none() {
            ensure!(r.ok, format!("{}:refused", key), "{}: refused in a fresh state: {}", o.name, r.err);
        }
        x.w = after;
        x.w.notes.insert("ops".into(), "1".into());
        x.log.truncate(r.execs.len());
        x.class = if r.ok { "done".into() } else { "refused".into() };
        Ok(())
    })
}

pub fn e12(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    v.push(mk(cx, "paused: every operation", move |cx| {
        let s = users(cx);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.depth = 3;
        let paused = |w: &World| w.notes.get("paused").is_some();
        for o in uops() {
            sc.ops.push(switch(
                o,
                "e12",
                move |w, o| if paused(w) && !o.always { Some("the exchange is paused".into()) } else { None },
                move |x| {
                    if paused(&x.w) {
                        x.call(OWNER, EX, "change_state", json!({"state": "Running"}), 1);
                    }
                },
            ));
        }
        for who in [OWNER, GUARD] {
            sc.ops.push(op(format!("{} pauses", short(who)), move |x| {
                let r = x.call(who, EX, "change_state", json!({"state": "Paused"}), 1);
                ensure!(r.ok, "e12:pause", "{} cannot pause: {}", who, r.err);
                let st = x.view(EX).get("metadata", json!({}))["state"].clone();
                ensure!(st == json!("Paused"), "e12:pause", "{} paused, the state is reported as {}", who, st);
                x.w.notes.insert("paused".into(), "1".into());
                Ok(())
            }));
        }
        for who in [OWNER, GUARD, ALICE] {
            sc.ops.push(op(format!("{} resumes", short(who)), move |x| {
                let w0 = x.w.clone();
                let r = x.call(who, EX, "change_state", json!({"state": "Running"}), 1);
                if who == OWNER {
                    ensure!(r.ok, "e12:resume", "the owner cannot resume: {}", r.err);
                    x.w.notes.remove("paused");
                } else {
                    ensure!(none(&w0, &x.w, &r).is_none(), "e12:resume", "{} resumed the exchange", who);
                }
                Ok(())
            }));
        }
        sc
    }));
    v.push(mk(cx, "paused with transfers in flight", move |cx| {
        let mut s = users(cx);
        s.env.max_dev = u32::MAX;
        for t in [T1, T2] {
            s.env.actors.insert(t.into(), Actor::Token { fail: true });
        }
        s.env.actors.insert(WNEAR.into(), Actor::Wnear { fail: true });
        let mut sc = Scenario::new("", s.env, s.w);
        sc.interleave = true;
        sc.max_pending = 4;
        sc.depth = if cx.thorough { 9 } else { 7 };
        sc.ops = vec![
            withdraw_op(ALICE, T1, 11, false, false),
            withdraw_op(BOB, T2, 12, false, false),
            withdraw_op(ALICE, WNEAR, 100, false, true),
            tx(ALICE, EX, "shadow_action", json!({"action": "ToFarming", "pool_id": 0, "amount": "7", "msg": ""}), NEAR / 50),
            tx(ALICE, EX, "shadow_action", json!({"action": "FromBurrowland", "pool_id": 0, "amount": "7", "msg": ""}), 0),
            tx(BOB, EX, "mft_transfer_call", json!({"token_id": ":0", "receiver_id": DAN, "amount": "7", "msg": ""}), 1),
            tx(GUARD, EX, "change_state", json!({"state": "Paused"}), 1),
        ];
        sc.step = Box::new(|_, _, _, log| {
            for e in log {
                if e.pred == EX && e.recv == EX {
                    ensure!(e.ok, "e12:callback", "the exchange's own {}({}) failed: {}", e.method, e.args, e.err);
                }
            }
            Ok(())
        });
        sc.inv = Box::new(|env, w| {
            let v = env.view(w, EX);
            let accs: Vec<&str> = ACCS.iter().cloned().chain([DAN]).collect();
            custody_inv(w, &v, &accs, TOKS)?;
            if w.quiet() {
                let (f, b) = rec(&v, ALICE, 0);
                let l = |a: &str| w.g(&format!("led.{}.{}.shadow_ref_v1-0", a, ALICE));
                ensure!(big(f) == l(BOOST) && big(b) == l(BURROW), "e12:pledge", "alice's pledges {} / {} differ from what the other contracts hold", f, b);
            }
            Ok(())
        });
        sc
    }));
    v
}

pub fn e13(cx: &Ctx) -> Mk {
    vec![mk(cx, "frozen: every operation", move |cx| {
        let s = users(cx);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.depth = 3;
        for o in uops() {
            sc.ops.push(switch(
                o,
                "e13",
                |w, o| o.toks.iter().find(|t| w.notes.contains_key(&format!("frozen.{}", t))).map(|t| format!("{} is frozen", t)),
                |x| {
                    for t in TOKS {
                        if x.w.notes.contains_key(&format!("frozen.{}", t)) {
                            x.call(OWNER, EX, "remove_frozenlist_tokens", json!({ "tokens": [t] }), 1);
                        }
                    }
                },
            ));
        }
        for (who, t) in [(OWNER, T1), (GUARD, T2), (GUARD, T3), (OWNER, WNEAR)] {
            sc.ops.push(op(format!("{} freezes {}", short(who), short(t)), move |x| {
                if x.w.notes.contains_key(&format!("frozen.{}", t)) {
                    return x.skip();
                }
                let r = x.call(who, EX, "extend_frozenlist_tokens", json!({ "tokens": [t] }), 1);
                ensure!(r.ok, "e13:freeze", "{} cannot freeze {}: {}", who, t, r.err);
                x.w.notes.insert(format!("frozen.{}", t), "1".into());
                Ok(())
            }));
            sc.ops.push(op(format!("{} thaws {}", short(who), short(t)), move |x| {
                if !x.w.notes.contains_key(&format!("frozen.{}", t)) {
                    return x.skip();
                }
                let r = x.call(who, EX, "remove_frozenlist_tokens", json!({ "tokens": [t] }), 1);
                ensure!(r.ok, "e13:freeze", "{} cannot thaw {}: {}", who, t, r.err);
                x.w.notes.remove(&format!("frozen.{}", t));
                Ok(())
            }));
        }
        sc
    })]
}

// ---------------------------------------------------------------- listed tokens

const U1: &str = "u1.test";
const U2: &str = "u2.suffix.test";

pub fn e15(cx: &Ctx) -> Mk {
    vec![mk(cx, "listed and unlisted tokens", move |cx| {
        let mut s = exchange(&cx.ex, 1600, 400);
        for t in [U1, U2] {
            s.env.actors.insert(t.into(), Actor::Token { fail: false });
        }
        for a in [OWNER, ALICE, BOB, CAROL] {
            s.storage(a, NEAR / 10);
        }
        for t in [T1, U1, U2] {
            s.deposit(ALICE, t, 1_000_000_000);
            s.mint(t, BOB, 1_000_000);
        }
        s.deposit(BOB, T1, 1_000_000);
        s.simple_pool(T1, U1, 30);
        s.simple_pool(U1, U2, 30);
        s.add_liq(ALICE, 0, &[10_000_000, 20_000_000]);
        s.add_liq(ALICE, 1, &[10_000_000, 20_000_000]);
        // u2 next to a listed token
        s.deposit(ALICE, T2, 1_000_000_000);
        s.simple_pool(T1, T2, 30);
        s.add_liq(ALICE, 2, &[10_000_000, 20_000_000]);
        s.stable_pool(&[T2, U2], &[6, 6], 25, 240);
        s.add_stable(ALICE, 3, &[10_000_000, 11_000_000]);
        for t in [T1, T2] {
            s.w.notes.insert(format!("listed.{}", t), "1".into());
        }
        let mut sc = Scenario::new("", s.env, s.w);
        sc.depth = if cx.thorough { 6 } else { 5 };
        let listed = |w: &World, t: &str| {
            w.notes.contains_key(&format!("listed.{}", t)) || w.notes.iter().any(|(k, _)| k.strip_prefix("postfix.").map(|p| t.ends_with(p)).unwrap_or(false))
        };
        let gated = |name: &str, toks: &'static [&'static str], f: Arc<dyn Fn(&mut X) -> Outcome + Send + Sync>| -> Op {
            let name = name.to_string();
            op(name.clone(), move |x| {
                let w0 = x.w.clone();
                let reg: BTreeSet<String> = deposits(&x.view(EX), BOB).keys().cloned().collect();
                let bad: Vec<&&str> = toks.iter().filter(|t| !listed(&w0, t) && !reg.contains(**t)).collect();
                let r = f(x);
                if !bad.is_empty() {
                    ensure!(none(&w0, &x.w, &r).is_none(), "e15:allowed", "{}: {:?} is neither listed nor registered by bob (who registered {:?}), but it had an effect", name, bad, reg);
                    x.class("stopped");
                    return Ok(());
                }
                let after = x.w.clone();
                x.w = w0.clone();
                x.call(OWNER, EX, "extend_whitelisted_tokens", json!({"tokens": [T1, U1, U2]}), 1);
                let t = f(x);
                ensure!(r.ok == t.ok && after.tok == x.w.tok, "e15:refused", "{}: all its tokens are listed or registered ({:?}), but it was refused: {}", name, reg, r.err);
                if w0.notes.get("ops").is_none() {
                    ensure!(r.ok, "e15:refused", "{}: refused in a fresh state: {}", name, r.err);
                }
                x.w = after;
                x.w.notes.insert("ops".into(), "1".into());
                x.class = format!("done {}", r.ok);
                Ok(())
            })
        };
        let snd = |tok: &'static str, n: u128, msg: Value| -> Arc<dyn Fn(&mut X) -> Outcome + Send + Sync> {
            let m = match msg {
                Value::String(s) => s,
                v => v.to_string(),
            };
            Arc::new(move |x| x.call(BOB, tok, "ft_transfer_call", json!({"receiver_id": EX, "amount": n.to_string(), "msg": m}), 1))
        };
        sc.ops.push(gated("bob deposits u1", &[U1], snd(U1, 1000, json!(""))));
        sc.ops.push(gated("bob deposits u2", &[U2], snd(U2, 1000, json!(""))));
        sc.ops.push(gated("bob zaps t1 into t1/u1", &[T1, U1], snd(T1, 1000, json!({"hot_zap_actions": [act(0, T1, U1, Some(400), 0)], "add_liquidity_infos": [{"pool_id": 0, "amounts": ["300", "600"], "min_amounts": ["0", "0"]}]}))));
        sc.ops.push(gated("bob zaps t1 through u1 into u1/u2", &[T1, U1, U2], snd(T1, 4000, json!({"hot_zap_actions": [act(0, T1, U1, Some(4000), 0), act(1, U1, U2, Some(3000), 0)], "add_liquidity_infos": [{"pool_id": 1, "amounts": ["300", "600"], "min_amounts": ["0", "0"]}]}))));
        sc.ops.push(gated("bob zaps t2 into t2/u2", &[T1, T2, U2], snd(T1, 4000, json!({"hot_zap_actions": [act(2, T1, T2, Some(4000), 0)], "add_liquidity_infos": [{"pool_id": 3, "amounts": ["3000", "0"], "min_shares": "0"}]}))));
        for (m, a) in [
            ("swap", json!({"actions": [act(0, T1, U1, Some(1000), 0)]})),
            ("execute_actions", json!({"actions": [act(0, T1, U1, Some(1000), 0)]})),
            ("swap_by_output", json!({"actions": [act_out(0, T1, U1, Some(1000), None)]})),
            ("execute_actions_in_va", json!({"use_tokens": {T1: "1000"}, "actions": [act(0, T1, U1, Some(1000), 0)]})),
            ("execute_actions_in_va", json!({"use_tokens": {T1: "1000", U1: "0"}, "actions": [act(0, T1, U1, Some(1000), 0)]})),
        ] {
            let a2 = a.clone();
            sc.ops.push(gated(&format!("bob {}{} t1>u1 without deposit", m, if a["use_tokens"][U1].is_null() { "" } else { ", naming u1," }), &[T1, U1], Arc::new(move |x| x.call(BOB, EX, m, a.clone(), 0))));
            // with a deposit (a full-access signature) any token may be traded
            sc.ops.push(gated(&format!("bob {}{} t1>u1 with deposit", m, if a2["use_tokens"][U1].is_null() { "" } else { ", naming u1," }), &[], Arc::new(move |x| x.call(BOB, EX, m, a2.clone(), 1))));
        }
        sc.ops.push(gated("bob swap t1>u1>u2 without deposit", &[T1, U1, U2], Arc::new(|x| x.call(BOB, EX, "swap", json!({"actions": [act(0, T1, U1, Some(1000), 0), act(1, U1, U2, None, 0)]}), 0))));
        for t in [U1, U2] {
            for (add, m) in [(true, "extend_whitelisted_tokens"), (false, "remove_whitelisted_tokens")] {
                sc.ops.push(op(format!("owner {} {}", m, short(t)), move |x| {
                    let k = format!("listed.{}", t);
                    if x.w.notes.contains_key(&k) == add {
                        return x.skip();
                    }
                    let r = x.call(OWNER, EX, m, json!({ "tokens": [t] }), 1);
                    ensure!(r.ok, "e15:list", "{} {} refused: {}", m, t, r.err);
                    if add {
                        x.w.notes.insert(k, "1".into());
                    } else {
                        x.w.notes.remove(&k);
                    }
                    Ok(())
                }));
            }
            sc.ops.push(tx(BOB, EX, "register_tokens", json!({ "token_ids": [t] }), 1));
            sc.ops.push(tx(BOB, EX, "unregister_tokens", json!({ "token_ids": [t] }), 1));
        }
        for p in [".suffix.test", "suffix", "1.test"] {
            for (add, m) in [(true, "extend_auto_whitelisted_postfix"), (false, "remove_auto_whitelisted_postfix")] {
                sc.ops.push(op(format!("guardian {} {}", m, p), move |x| {
                    let k = format!("postfix.{}", p);
                    if x.w.notes.contains_key(&k) == add {
                        return x.skip();
                    }
                    let r = x.call(GUARD, EX, m, json!({ "postfixes": [p] }), 1);
                    ensure!(r.ok, "e15:list", "{} {} refused: {}", m, p, r.err);
                    if add {
                        x.w.notes.insert(k, "1".into());
                    } else {
                        x.w.notes.remove(&k);
                    }
                    Ok(())
                }));
            }
        }
        sc
    })]
}

// ---------------------------------------------------------------- only you spend what is yours

/// Everything an account owns, as (what, amount); pledges are listed by themselves.
fn belongings(w: &World, v: &Viewer, who: &str, pools: u64) -> Vec<(String, u128)> {
    let mut o: Vec<(String, u128)> = vec![];
    let d = deposits(v, who);
    let lf = lostfounds(v, who);
    for t in TOKS {
        o.push((format!("{} in the inner account and lost-and-found", t), d.get(*t).unwrap_or(&0) + lf.get(*t).unwrap_or(&0)));
        o.push((format!("{} in the wallet", t), w.bal(t, who)));
    }
    for p in 0..pools {
        o.push((format!("shares of pool {}", p), shares(v, p, who)));
        o.push((format!("pledges on pool {}", p), { let (a, b) = rec(v, who, p); a + b }));
    }
    let b = v.get("storage_balance_of", json!({ "account_id": who }));
    o.push(("storage deposit".into(), if b.is_null() { 0 } else { u(&b["total"]) + 1 }));
    let n = w.near_of(who);
    o.push(("NEAR".into(), (n + i128::MAX / 4) as u128));
    o
}
const EVIL: &str = "evil.test";

pub fn e29(cx: &Ctx) -> Mk {
    let th = cx.thorough;
    vec![mk(cx, "everyone against everyone", move |cx| {
        let s = users(cx);
        let mut sc = Scenario::new("", s.env, s.w);
        for o in uops() {
            let f = o.f.clone();
            sc.ops.push(op(o.name, move |x| {
                f(x);
                Ok(())
            }));
        }
        sc.ops.extend(swap_ops());
        sc.ops.extend(liq_ops());
        sc.ops.extend(xfer_ops());
        // what carol, evil (an account that may pose as a token) and dan may try
        let zap0 = json!({"hot_zap_actions": [act(0, T1, T2, Some(0), 0)], "add_liquidity_infos": [{"pool_id": 0, "amounts": ["0", "0"], "min_amounts": ["0", "0"]}]}).to_string();
        let zap1 = json!({"hot_zap_actions": [act_out(0, T1, T2, Some(0), None)], "add_liquidity_infos": [{"pool_id": 1, "amounts": ["1", "1"], "min_amounts": ["0", "0"]}]}).to_string();
        let zap2 = json!({"hot_zap_actions": [act_out(0, T1, T2, Some(0), None)], "add_liquidity_infos": [{"pool_id": 2, "amounts": ["0", "0", "0"], "min_shares": "0"}]}).to_string();
        let ex0 = json!({"actions": [act(0, T1, T2, Some(1000), 0)]}).to_string();
        let ex1 = json!({"actions": [act_out(0, T1, T2, Some(1000), None)], "swap_out_recipient": CAROL}).to_string();
        for (n, m) in [("deposit", "".to_string()), ("swap", ex0), ("swap out", ex1), ("zap 0", zap0), ("zap 1", zap1), ("zap 2", zap2)] {
            let a = json!({"sender_id": ALICE, "amount": "1000000000000000000000000", "msg": m});
            sc.ops.push(txn(&format!("evil pretends a transfer from alice: {}", n), EVIL, EX, "ft_on_transfer", a, 0));
        }
        let big = (1000 * E18).to_string();
        for (n, m, a, d) in [
            ("withdraws", "withdraw", json!({"token_id": T1, "amount": "5", "account_id": ALICE, "sender_id": ALICE}), 1),
            ("withdraws all", "withdraw", json!({"token_id": T1, "amount": "0"}), 1),
            ("swaps", "swap", json!({"actions": [act(0, T1, T2, Some(1000), 0)], "referral_id": ALICE}), 1),
            ("swaps in va", "execute_actions_in_va", json!({"use_tokens": {T1: "1000"}, "actions": [act(0, T1, T2, Some(1000), 0)]}), 1),
            ("removes liquidity", "remove_liquidity", json!({"pool_id": 0, "shares": big, "min_amounts": ["0", "0"]}), 1),
            ("removes one token", "remove_liquidity_by_tokens", json!({"pool_id": 2, "amounts": strs(&[E18, 0, 0]), "max_burn_shares": MX}), 1),
            ("moves shares", "mft_transfer", json!({"token_id": ":0", "receiver_id": DAN, "amount": "5"}), 1),
            ("moves tokens", "mft_transfer", json!({"token_id": T1, "receiver_id": DAN, "amount": "5"}), 1),
            ("moves no shares", "mft_transfer", json!({"token_id": ":0", "receiver_id": DAN, "amount": "0"}), 1),
            ("claims", "claim_lostfound", json!({"token_id": T3, "account_id": DAN}), 1),
            ("pledges", "shadow_action", json!({"action": "ToBurrowland", "pool_id": 0, "amount": "7", "msg": ""}), NEAR / 50),
            ("unpledges", "shadow_action", json!({"action": "FromBurrowland", "pool_id": 0, "amount": "7", "msg": "", "account_id": ALICE}), 0),
            ("liquidates", "on_burrow_liquidation", json!({"liquidator_account_id": CAROL, "liquidation_account_id": ALICE, "shadow_id": "shadow_ref_v1-0", "liquidate_share_amount": "1000", "min_token_amounts": ["0", "0"]}), 0),
            ("takes fees", "remove_exchange_fee_liquidity", json!({"pool_id": 0, "shares": "5", "min_amounts": ["0", "0"]}), 1),
            ("takes the owner's tokens", "withdraw_owner_token", json!({"token_id": T2, "amount": "5"}), 1),
            ("retrieves", "retrieve_unmanaged_token", json!({"token_id": T1, "amount": "5"}), 1),
            ("closes", "storage_unregister", json!({"force": true, "account_id": ALICE}), 1),
            ("takes storage", "storage_withdraw", json!({"amount": big}), 1),
            ("pays storage for alice", "storage_deposit", json!({"account_id": ALICE}), NEAR / 100),
            ("registers alice again", "storage_deposit", json!({"account_id": ALICE, "registration_only": true}), NEAR / 100),
            ("registers bob for shares", "mft_register", json!({"token_id": ":1", "account_id": BOB}), NEAR / 100),
            ("unregisters", "mft_unregister", json!({"token_id": ":0", "account_id": ALICE}), 1),
            ("adds liquidity", "add_liquidity", json!({"pool_id": 0, "amounts": strs(&[E18, 3 * E18])}), NEAR / 100),
            ("donates", "donation_token", json!({"token_id": T1, "amount": "5"}), 1),
            ("donates shares", "donation_share", json!({"pool_id": 0, "amount": "5"}), 1),
        ] {
            sc.ops.push(txn(&format!("carol {}", n), CAROL, EX, m, a, d));
        }
        sc.ops.push(txn("carol opens an account", CAROL, EX, "storage_deposit", json!({}), NEAR / 10));
        sc.depth = if th { 4 } else { 3 };
        let accs: Vec<&'static str> = ACCS.iter().cloned().chain([DAN, EVIL]).collect();
        sc.step = Box::new(move |env, pre, post, log| {
            let signer = match log.first() {
                Some(e) => &e.pred[..],
                None => return Ok(()),
            };
            let (m, a) = log.iter().find(|e| e.recv == EX).map(|e| (&e.method[..], &e.args[..])).unwrap_or(("", ""));
            let (v, p) = (env.view(pre, EX), env.view(post, EX));
            let n = u(&v.get("get_number_of_pools", json!({}))) as u64;
            for who in &accs {
                if *who == signer {
                    continue;
                }
                // the agreed ways in which somebody else's property goes down
                let fees = *who == EX && m == "remove_exchange_fee_liquidity" && [OWNER, GUARD].contains(&signer);
                let own = *who == OWNER && m == "withdraw_owner_token" && signer == GUARD;
                let liq = *who == ALICE && m == "on_burrow_liquidation" && signer == BURROW;
                let (b0, b1) = (belongings(pre, &v, who, n), belongings(post, &p, who, n));
                for ((k, x), (_, y)) in b0.iter().zip(&b1) {
                    if *who == EX && (k.contains("wallet") || k == "NEAR") {
                        continue;
                    }
                    if (fees && k == "shares of pool 0") || (fees && k == "shares of pool 2") || (own && k.contains("inner")) || (liq && k.contains("pool 0")) {
                        continue;
                    }
                    ensure!(y >= x, "e29", "{} lost {} of {} by {}.{}({}) of {}", who, x - y, k, EX, m, a, signer);
                }
            }
            Ok(())
        });
        sc
    })]
}
