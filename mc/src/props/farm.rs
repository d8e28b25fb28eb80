//! F01-F08 the farming contract.
use super::*;
use crate::chain::*;
use crate::ensure;
use crate::exh::*;
use crate::explore::*;
use crate::fail;
use crate::ops::*;
use crate::vm::*;
use crate::Ctx;
use num_bigint::BigInt;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub const S1: &str = "s1.test";
pub const MF: &str = "mf.test";
pub const M0: &str = "mf.test@0";
pub const R1: &str = "r1.test";
pub const R2: &str = "r2.test";
pub const DAN: &str = "dan.test";
pub const WHO: &[&str] = &[OWNER, ALICE, BOB, CAROL, DAN];
pub const SEEDS: &[&str] = &[S1, M0];
pub const REWS: &[&str] = &[R1, R2];
pub const SEC: u64 = 1_000_000_000;
pub const BYTE: u128 = 10_000_000_000_000_000_000;
pub const MIN_STORAGE: u128 = (92 + 10 * 80 + 10 * 96) * BYTE;

// ---- set-up

pub fn farming(cx: &Ctx) -> Sb {
    let mut env = Env::new();
    env.codes.insert(FARM, cx.farm.clone());
    for t in [S1, R1, R2] {
        env.actors.insert(t.into(), Actor::Token { fail: false });
    }
    env.actors.insert(MF.into(), Actor::Mft { fail: false });
    let mut w = World::new();
    w.kv.insert(FARM, Kv::new());
    w.add_near(FARM, 1000 * NEAR as i128);
    let mut s = Sb { env, w };
    s.must(OWNER, FARM, "new", json!({ "owner_id": OWNER }), 0);
    s
}
pub fn terms(seed: &str, rew: &str, start: u64, per: u128, every: u64) -> Value {
    json!({"seed_id": seed, "reward_token": rew, "start_at": start, "reward_per_session": per.to_string(), "session_interval": every})
}
pub fn new_farm(s: &mut Sb, seed: &str, rew: &str, start: u64, per: u128, every: u64, min: u128) -> String {
    let o = s.must(OWNER, FARM, "create_simple_farm", json!({"terms": terms(seed, rew, start, per, every), "min_deposit": min.to_string()}), NEAR / 10);
    o.json().as_str().expect("farm id").to_string()
}
pub fn join(s: &mut Sb, who: &str) {
    s.must(who, FARM, "storage_deposit", json!({}), MIN_STORAGE + 3 * 165 * BYTE);
}
pub fn put_args(tok: &str, n: u128, msg: &str) -> (String, &'static str, Value) {
    match tok.split_once('@') {
        Some((m, id)) => (m.to_string(), "mft_transfer_call", json!({"token_id": format!(":{}", id), "receiver_id": FARM, "amount": n.to_string(), "msg": msg})),
        None => (tok.to_string(), "ft_transfer_call", json!({"receiver_id": FARM, "amount": n.to_string(), "msg": msg})),
    }
}
pub fn put(s: &mut Sb, who: &str, tok: &str, n: u128, msg: &str) {
    s.mint(tok, who, n);
    let (at, m, a) = put_args(tok, n, msg);
    s.must(who, &at, m, a, 1);
    assert!(s.w.bal(tok, who) == 0, "SETUP_FAILED {} of {} were not taken for \"{}\"", n, tok, msg);
}
pub fn sec(w: &World) -> u64 {
    w.ts / SEC
}

/// Three farms (two of one seed, one of a share token): running, announced, running.
/// Alice has stakes of both seeds, bob and dan are registered, carol pays the rewards.
pub fn base(cx: &Ctx) -> Sb {
    let mut s = farming(cx);
    let t = sec(&s.w);
    new_farm(&mut s, S1, R1, 0, 97_001, 60, 10);
    new_farm(&mut s, S1, R2, t + 90, 50_003, 100, 10);
    new_farm(&mut s, M0, R1, 0, 31_007, 60, 10);
    for a in [ALICE, BOB, DAN] {
        join(&mut s, a);
    }
    put(&mut s, CAROL, R1, 500_000, &format!("{}#0", S1));
    put(&mut s, CAROL, R2, 180_000, &format!("{}#1", S1));
    put(&mut s, CAROL, R1, 200_000, &format!("{}#0", M0));
    put(&mut s, ALICE, S1, 300, "");
    put(&mut s, ALICE, M0, 40, "");
    for (t, n) in [(S1, 1000), (M0, 1000)] {
        for a in [ALICE, BOB, DAN] {
            s.mint(t, a, n);
        }
    }
    for t in REWS {
        s.mint(t, CAROL, 5_000_000);
    }
    s
}
pub fn may_fail(s: &mut Sb) {
    for t in [S1, R1, R2] {
        s.env.actors.insert(t.into(), Actor::Token { fail: true });
    }
    s.env.actors.insert(MF.into(), Actor::Mft { fail: true });
}

// ---- observations

#[derive(Clone, Debug, PartialEq)]
pub struct FarmObs {
    pub id: String,
    pub status: String,
    pub seed: String,
    pub rew: String,
    pub start: u64,
    pub per: u128,
    pub every: u64,
    pub total: u128,
    pub claimed: u128,
    pub unclaimed: u128,
    pub ben: u128,
    pub round: u128,
}
fn farm_of(f: &Value) -> FarmObs {
    let st = |k: &str| f[k].as_str().unwrap_or_else(|| panic!("VIEW_FAILED farm({})", f)).to_string();
    FarmObs {
        id: st("farm_id"),
        status: st("farm_status"),
        seed: st("seed_id"),
        rew: st("reward_token"),
        start: f["start_at"].as_u64().unwrap_or(0),
        per: u(&f["reward_per_session"]),
        every: f["session_interval"].as_u64().unwrap_or(0),
        total: u(&f["total_reward"]),
        claimed: u(&f["claimed_reward"]),
        unclaimed: u(&f["unclaimed_reward"]),
        ben: u(&f["beneficiary_reward"]),
        round: u(&f["cur_round"]),
    }
}
pub const PAGE: fn() -> Value = || json!({"from_index": 0, "limit": 100});
pub fn live(v: &Viewer) -> Vec<FarmObs> {
    let mut f: Vec<FarmObs> = v.get("list_farms", PAGE()).as_array().unwrap().iter().map(farm_of).collect();
    f.sort_by(|a, b| a.id.cmp(&b.id));
    f
}
pub fn old(v: &Viewer) -> Vec<FarmObs> {
    let mut f: Vec<FarmObs> = v.get("list_outdated_farms", PAGE()).as_array().unwrap().iter().map(farm_of).collect();
    f.sort_by(|a, b| a.id.cmp(&b.id));
    f
}
fn map_of(x: &Value) -> BTreeMap<String, u128> {
    x.as_object().map(|o| o.iter().map(|(k, x)| (k.clone(), u(x))).collect()).unwrap_or_default()
}
pub fn stakes(v: &Viewer, who: &str) -> BTreeMap<String, u128> {
    map_of(&v.get("list_user_seeds", json!({ "account_id": who })))
}
pub fn rewards(v: &Viewer, who: &str) -> BTreeMap<String, u128> {
    map_of(&v.get("list_rewards", json!({ "account_id": who })))
}
pub fn of(m: &BTreeMap<String, u128>, k: &str) -> u128 {
    m.get(k).cloned().unwrap_or(0)
}
pub fn pending(v: &Viewer, who: &str, farm: &str) -> u128 {
    u(&v.get("get_unclaimed_reward", json!({"account_id": who, "farm_id": farm})))
}
/// Deposited, free.
pub fn paid(v: &Viewer, who: &str) -> Option<(u128, u128)> {
    let b = v.get("storage_balance_of", json!({ "account_id": who }));
    if b.is_null() {
        None
    } else {
        Some((u(&b["total"]), u(&b["available"])))
    }
}
pub fn seeds(v: &Viewer) -> BTreeMap<String, u128> {
    map_of(&v.get("list_seeds", PAGE()))
}

// ---- operations

pub fn stake(who: &'static str, tok: &'static str, n: u128) -> Op {
    op(format!("{} stakes {} {}", short(who), n, tok), move |x| {
        if x.w.bal(tok, who) < n {
            return x.skip();
        }
        let (at, m, a) = put_args(tok, n, "");
        x.call(who, &at, m, a, 1);
        Ok(())
    })
}
pub fn fund(tok: &'static str, n: u128, farm: &'static str) -> Op {
    op(format!("carol sends {} {} for {}", n, short(tok), farm), move |x| {
        if x.w.bal(tok, CAROL) < n {
            return x.skip();
        }
        let (at, m, a) = put_args(tok, n, farm);
        x.call(CAROL, &at, m, a, 1);
        Ok(())
    })
}
pub fn unstake(who: &'static str, tok: &'static str, n: Option<u128>) -> Op {
    op(format!("{} unstakes {} {}", short(who), n.map(|n| n.to_string()).unwrap_or("all".into()), tok), move |x| {
        let a = match n {
            Some(n) => n,
            None => of(&stakes(&x.view(FARM), who), tok),
        };
        x.call(who, FARM, "withdraw_seed", json!({"seed_id": tok, "amount": a.to_string()}), 1);
        Ok(())
    })
}
/// All but so much.
pub fn unstake_but(who: &'static str, tok: &'static str, n: u128) -> Op {
    op(format!("{} unstakes all but {} of {}", short(who), n, tok), move |x| {
        let a = of(&stakes(&x.view(FARM), who), tok);
        if a <= n {
            return x.skip();
        }
        x.call(who, FARM, "withdraw_seed", json!({"seed_id": tok, "amount": (a - n).to_string()}), 1);
        Ok(())
    })
}
pub fn take_but(who: &'static str, tok: &'static str, n: u128) -> Op {
    op(format!("{} takes all but {} of {}", short(who), n, short(tok)), move |x| {
        let a = of(&rewards(&x.view(FARM), who), tok);
        if a <= n {
            return x.skip();
        }
        x.call(who, FARM, "withdraw_reward", json!({"token_id": tok, "amount": (a - n).to_string()}), 1);
        Ok(())
    })
}
pub fn claim_seed(who: &'static str, tok: &'static str) -> Op {
    tx(who, FARM, "claim_reward_by_seed", json!({ "seed_id": tok }), 0)
}
pub fn claim_farm(who: &'static str, farm: &'static str) -> Op {
    tx(who, FARM, "claim_reward_by_farm", json!({ "farm_id": farm }), 0)
}
/// `n` None: everything; otherwise this much.
pub fn take(who: &'static str, tok: &'static str, n: Option<u128>) -> Op {
    match n {
        None => tx(who, FARM, "withdraw_reward", json!({ "token_id": tok }), 1),
        Some(n) => tx(who, FARM, "withdraw_reward", json!({"token_id": tok, "amount": n.to_string()}), 1),
    }
}
/// Takes all there is, by its amount.
pub fn take_named(who: &'static str, tok: &'static str) -> Op {
    op(format!("{} takes exactly all of {}", short(who), short(tok)), move |x| {
        let n = of(&rewards(&x.view(FARM), who), tok);
        if n == 0 {
            return x.skip();
        }
        x.call(who, FARM, "withdraw_reward", json!({"token_id": tok, "amount": n.to_string()}), 1);
        Ok(())
    })
}
pub fn clean(farm: &'static str) -> Op {
    tx(OWNER, FARM, "force_clean_farm", json!({ "farm_id": farm }), 0)
}
pub fn wait(s: u64) -> Op {
    op(format!("{} s pass", s), move |x| {
        x.w.ts += s * SEC;
        x.w.height += s;
        Ok(())
    })
}
pub fn create(seed: &'static str, rew: &'static str, ago: u64, per: u128, every: u64) -> Op {
    op(format!("owner creates a farm of {} for {}: {} every {}, from {} ago", seed, short(rew), per, every, ago), move |x| {
        if live(&x.view(FARM)).len() > 3 {
            return x.skip();
        }
        let st = if ago == 0 { 0 } else { sec(&x.w) - ago };
        x.call(OWNER, FARM, "create_simple_farm", json!({"terms": terms(seed, rew, st, per, every), "min_deposit": "1"}), NEAR / 10);
        Ok(())
    })
}
pub fn mix() -> Vec<Op> {
    vec![
        stake(ALICE, S1, 100),
        stake(BOB, S1, 77),
        stake(BOB, M0, 50),
        unstake(ALICE, S1, Some(90)),
        unstake(ALICE, S1, None),
        unstake(BOB, S1, None),
        unstake(ALICE, S1, Some(0)),
        unstake_but(ALICE, M0, 3),
        claim_seed(ALICE, S1),
        claim_seed(DAN, S1),
        claim_farm(BOB, "s1.test#0"),
        claim_farm(ALICE, "mf.test@0#0"),
        take(ALICE, R1, None),
        take(BOB, R1, Some(1)),
        take(ALICE, R2, None),
        fund(R1, 300_000, "s1.test#0"),
        fund(R2, 70_000, "s1.test#1"),
        fund(R2, 5, "s1.test#0"),
        wait(60),
        wait(45),
        wait(400),
        clean("s1.test#0"),
        clean("s1.test#1"),
        tx(ALICE, FARM, "remove_user_rps_by_farm", json!({"farm_id": "s1.test#0"}), 0),
        create(S1, R2, 150, 30_011, 50),
        fund(R2, 100_000, "s1.test#2"),
    ]
}

// ---- F01 and F03: what the contract holds

/// Holdings of a token against everything recorded and in flight.
pub fn books_inv(w: &World, v: &Viewer, key: &str, toks: &[&str]) -> R {
    let mut owed: BTreeMap<String, BigInt> = BTreeMap::new();
    for (s, n) in seeds(v) {
        *owed.entry(s).or_default() += n;
    }
    for f in live(v).iter().chain(&old(v)) {
        ensure!(f.claimed <= f.total && f.ben <= f.claimed && f.unclaimed <= f.total - f.claimed, format!("{}:farm", key), "farm {:?} gave out more than it got", f);
        *owed.entry(f.rew.clone()).or_default() += f.total - f.claimed + f.ben;
    }
    for a in WHO {
        for (t, n) in rewards(v, a) {
            *owed.entry(t).or_default() += n;
        }
    }
    for t in toks {
        let o = owed.get(*t).cloned().unwrap_or_default() + inflight(w, FARM, t);
        ensure!(big(w.bal(t, FARM)) == o, format!("{}:custody", key), "the contract holds {} of {}, its records and transfers in flight say {}", w.bal(t, FARM), t, o);
    }
    Ok(())
}
pub fn stakes_inv(v: &Viewer, key: &str) -> R {
    let mut sum: BTreeMap<String, u128> = BTreeMap::new();
    for a in WHO {
        for (s, n) in stakes(v, a) {
            *sum.entry(s).or_default() += n;
        }
    }
    for (s, n) in seeds(v) {
        ensure!(of(&sum, &s) == n, format!("{}:total", key), "{} staked {} in total, the stakers have {}", s, n, of(&sum, &s));
        let i = v.get("get_seed_info", json!({ "seed_id": s }));
        ensure!(u(&i["amount"]) == n, format!("{}:views", key), "{} staked {} in one answer, {} in another", s, n, i["amount"]);
    }
    Ok(())
}
pub fn rewards_inv(v: &Viewer, key: &str) -> R {
    let mut got: BTreeMap<String, u128> = BTreeMap::new();
    for f in live(v) {
        *got.entry(f.rew.clone()).or_default() += f.total;
        let mut s = 0;
        for a in WHO {
            s += pending(v, a, &f.id);
        }
        ensure!(s <= f.unclaimed, format!("{}:promise", key), "farm {}: the stakers are told they can claim {}, there is {}", f.id, s, f.unclaimed);
    }
    for f in old(v) {
        *got.entry(f.rew.clone()).or_default() += f.total;
    }
    let info = map_of(&v.get("list_rewards_info", PAGE()));
    for t in REWS {
        ensure!(of(&got, t) == of(&info, t), format!("{}:total", key), "{}: the farms got {}, reported are {}", t, of(&got, t), of(&info, t));
    }
    Ok(())
}

/// In flight: withdrawals that may fail, next to everything that can meet them.
fn overlap(cx: &Ctx) -> Scenario {
    let mut s = base(cx);
    // some rewards to take
    s.w.ts += 65 * SEC;
    s.must(ALICE, FARM, "claim_reward_by_seed", json!({ "seed_id": S1 }), 0);
    may_fail(&mut s);
    let mut sc = Scenario::new("", s.env, s.w);
    sc.interleave = true;
    sc.max_pending = 3;
    sc.depth = if cx.thorough { 7 } else { 6 };
    sc.ops = vec![
        unstake(ALICE, S1, None),
        unstake_but(ALICE, M0, 1),
        take(ALICE, R1, None),
        take_but(ALICE, R1, 1),
        stake(BOB, S1, 77),
        stake(ALICE, M0, 12),
        claim_seed(ALICE, S1),
        fund(R1, 300_000, "s1.test#0"),
        clean("s1.test#0"),
        wait(400),
        tx(ALICE, FARM, "storage_unregister", json!({}), 1),
    ];
    sc
}

pub fn f01(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    let inv = |env: &Env, w: &World| {
        let v = env.view(w, FARM);
        books_inv(w, &v, "f01", REWS)?;
        rewards_inv(&v, "f01")
    };
    v.push(mk(cx, "mix", move |cx| {
        let mut s = base(cx);
        may_fail(&mut s);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.depth = if cx.thorough { 5 } else { 4 };
        sc.ops = mix();
        sc.inv = Box::new(inv);
        sc
    }));
    v.push(mk(cx, "in flight", move |cx| {
        let mut sc = overlap(cx);
        sc.inv = Box::new(inv);
        sc
    }));
    v
}

// ---- F02: pro rata

fn scale() -> BigInt {
    BigInt::from(10u128.pow(30))
}
/// Counts the sessions that passed: to whom an ideal farm would have given what.
fn accrue(x: &mut X) {
    let v = x.view(FARM);
    let st: Vec<(&str, BTreeMap<String, u128>)> = WHO.iter().map(|a| (*a, stakes(&v, a))).collect();
    let now = sec(&x.w);
    for f in live(&v) {
        if f.status == "Created" || f.every == 0 || now < f.start {
            continue;
        }
        let rr = BigInt::from((now - f.start) / f.every);
        let (kd, kr) = (format!("d.{}", f.id), format!("rr.{}", f.id));
        let new = (rr.clone() - x.w.g(&kr)) * f.per;
        let left = big(f.total) - x.w.g(&kd);
        let add = if new > left { left } else { new };
        x.w.gset(&kr, rr);
        if add > BigInt::from(0) {
            x.w.gadd(&kd, add.clone());
            let all: u128 = st.iter().map(|s| of(&s.1, &f.seed)).sum();
            for (a, m) in &st {
                let n = of(m, &f.seed);
                if n > 0 {
                    x.w.gadd(&format!("e.{}.{}", f.id, a), add.clone() * scale() * n / all);
                }
            }
        }
    }
}
fn counted(o: Op) -> Op {
    op(o.label.clone(), move |x| {
        let pre = x.w.clone();
        (o.f)(x)?;
        if x.skipped {
            return Ok(());
        }
        accrue(x);
        // an ended farm that was cleared keeps what nobody claimed
        let v = x.env.view(&pre, FARM);
        let p = x.view(FARM);
        let now: Vec<String> = live(&p).into_iter().map(|f| f.id).collect();
        for f in live(&v) {
            if !now.contains(&f.id) {
                for a in WHO {
                    let n = pending(&v, a, &f.id);
                    x.w.gadd(&format!("e.{}.{}", f.id, a), -scale() * n);
                }
            }
        }
        Ok(())
    })
}
/// `slack`: units a user may miss through rounding, per farm.
fn rata(env: &Env, w: &World, slack: u128) -> R {
    let v = env.view(w, FARM);
    let (l, o) = (live(&v), old(&v));
    for f in &l {
        let d = w.g(&format!("d.{}", f.id));
        if f.status == "Running" || f.status == "Ended" {
            ensure!(big(f.claimed) + f.unclaimed == d, "f02:sessions", "farm {:?} gave out {}, its sessions until now are worth {}", f, f.claimed + f.unclaimed, d);
            ensure!((f.status == "Ended") == (d == big(f.total)), "f02:end", "farm {:?} gave out {} of {}", f, d, f.total);
        }
    }
    for a in WHO {
        if *a == CAROL {
            continue;
        }
        let r = rewards(&v, a);
        for t in REWS {
            let mut got = big(of(&r, t) + w.bal(t, a));
            let mut due = BigInt::from(0);
            let mut n = 0;
            for f in l.iter().chain(&o).filter(|f| f.rew == *t) {
                due += w.g(&format!("e.{}.{}", f.id, a));
                n += 1;
            }
            for f in l.iter().filter(|f| f.rew == *t) {
                got += pending(&v, a, &f.id);
            }
            let g = got.clone() * scale();
            ensure!(g <= due.clone() + 1_000_000, "f02:more", "{} gets {} of {}, pro rata due is {:.3}", a, got, t, ratio(&due));
            ensure!(g + scale() * (slack * n) >= due, "f02:less", "{} gets {} of {}, pro rata due is {:.3}", a, got, t, ratio(&due));
        }
    }
    Ok(())
}
fn ratio(x: &BigInt) -> f64 {
    x.to_string().parse::<f64>().unwrap_or(0.0) / 1e30
}

pub fn f02(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    v.push(mk(cx, "shares of the rewards", move |cx| {
        let s = base(cx);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.depth = if cx.thorough { 5 } else { 4 };
        sc.ops = mix().into_iter().map(counted).collect();
        sc.inv = Box::new(|env, w| rata(env, w, 8));
        sc
    }));
    v.push(mk(cx, "large stakes, uneven times", move |cx| {
        let e = 10u128.pow(24);
        let mut s = farming(cx);
        new_farm(&mut s, S1, R1, 0, 7 * e + 1, 60, 1);
        for a in [ALICE, BOB, DAN] {
            join(&mut s, a);
            s.mint(S1, a, 5_000 * e);
        }
        s.mint(R1, CAROL, 9_000 * e);
        put(&mut s, DAN, R1, 100 * e, &format!("{}#0", S1));
        let mut sc = Scenario::new("", s.env, s.w);
        sc.depth = if cx.thorough { 7 } else { 6 };
        sc.ops = vec![
            stake(ALICE, S1, 3 * e + 1),
            stake(BOB, S1, 1_777 * e + 3),
            unstake(ALICE, S1, Some(e)),
            unstake(BOB, S1, None),
            claim_seed(ALICE, S1),
            claim_farm(DAN, "s1.test#0"),
            fund(R1, 10 * e + 7, "s1.test#0"),
            wait(60),
            wait(59),
            wait(601),
        ]
        .into_iter()
        .map(counted)
        .collect();
        sc.inv = Box::new(|env, w| rata(env, w, 2_000 * 7));
        sc
    }));
    v
}

// ---- F03: stakes

/// What one call without time passing may do to whom. Rewards include what can be claimed.
fn belongings(w: &World, v: &Viewer, who: &str) -> (BTreeMap<String, u128>, BTreeMap<String, u128>, Option<u128>) {
    let mut r = rewards(v, who);
    for f in live(v) {
        *r.entry(f.rew.clone()).or_default() += pending(v, who, &f.id);
    }
    let _ = w;
    r.retain(|_, n| *n > 0);
    (stakes(v, who), r, paid(v, who).map(|p| p.0))
}
fn mine_judge(env: &Env, pre: &World, post: &World, log: &[Exec]) -> R {
    let e = match log.first() {
        Some(e) => e,
        None => return Ok(()),
    };
    let (v, p) = (env.view(pre, FARM), env.view(post, FARM));
    let what = format!("{}.{}({}) by {}", e.recv, e.method, e.args, e.pred);
    let gone: Vec<FarmObs> = {
        let now: Vec<String> = live(&p).into_iter().map(|f| f.id).collect();
        live(&v).into_iter().filter(|f| !now.contains(&f.id)).collect()
    };
    let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
    for who in WHO {
        let (s0, mut r0, n0) = belongings(pre, &v, who);
        let (s1, r1, n1) = belongings(post, &p, who);
        for f in &gone {
            // cleared by the owner: what was not claimed goes
            let x = r0.entry(f.rew.clone()).or_default();
            *x -= pending(&v, who, &f.id);
        }
        r0.retain(|_, n| *n > 0);
        if *who != e.pred {
            ensure!(s0 == s1, "f03:others", "{} changed the stakes of {} from {:?} to {:?}", what, who, s0, s1);
            // rewards for sessions that are over reach the stakers at once
            let gift = e.method.ends_with("transfer_call") && a["msg"] != "" && REWS.iter().all(|t| of(&r1, t) >= of(&r0, t));
            ensure!(r0 == r1 || gift, "f03:others", "{} changed the rewards of {} from {:?} to {:?}", what, who, r0, r1);
            let grown = n1.unwrap_or(0) >= n0.unwrap_or(0);
            ensure!(if e.method == "storage_deposit" { grown } else { n0 == n1 }, "f03:others", "{} changed the storage deposit of {} from {:?} to {:?}", what, who, n0, n1);
            for t in SEEDS.iter().chain(REWS) {
                ensure!(pre.bal(t, who) == post.bal(t, who), "f03:others", "{} changed the wallet of {}", what, who);
            }
            continue;
        }
        for t in SEEDS {
            let (a0, a1) = (of(&s0, t), of(&s1, t));
            let (w0, w1) = (pre.bal(t, who), post.bal(t, who));
            ensure!(a0 + w0 == a1 + w1, "f03:stake", "{} turned a stake of {} and a wallet of {} of {} into {} and {}", what, a0, w0, t, a1, w1);
            let named = if e.method == "withdraw_seed" && a["seed_id"] == **t { u(&a["amount"]) } else { 0 };
            ensure!(a1 == a0 || a1 > a0 || a0 - a1 == named, "f03:stake", "{} took {} of {} off the stake", what, a0 - a1, t);
            let sent = e.method.ends_with("transfer_call") && e.ok && a["msg"] == "";
            ensure!(a1 <= a0 || (sent && a1 - a0 == u(&a["amount"])), "f03:stake", "{} put {} of {} on the stake", what, a1 - a0, t);
        }
        for t in REWS {
            let (a0, a1) = (of(&r0, t), of(&r1, t));
            let (w0, w1) = (pre.bal(t, who), post.bal(t, who));
            if e.method.ends_with("transfer_call") && e.recv == *t {
                ensure!(a0 == a1 && w1 <= w0, "f03:reward", "{} changed the rewards of {}: {} to {}", what, t, a0, a1);
                continue;
            }
            ensure!(a0 + w0 == a1 + w1, "f03:reward", "{} turned rewards of {} and a wallet of {} of {} into {} and {}", what, a0, w0, t, a1, w1);
            if w1 > w0 {
                let n = a["amount"].as_str().map(|x| x.parse::<u128>().unwrap()).unwrap_or(0);
                let all = of(&rewards(&v, who), t);
                ensure!(e.method == "withdraw_reward" && w1 - w0 == if n == 0 { all } else { n }, "f03:reward", "{} paid {} of {} out of {}", what, w1 - w0, t, all);
            }
        }
    }
    Ok(())
}
pub fn f03(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    v.push(mk(cx, "everybody's own", move |cx| {
        let mut s = base(cx);
        may_fail(&mut s);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.depth = if cx.thorough { 5 } else { 4 };
        sc.ops = mix();
        sc.ops.push(unstake(BOB, M0, Some(51)));
        sc.ops.push(unstake_but(ALICE, S1, 1));
        sc.ops.push(take_but(ALICE, R1, 1));
        sc.ops.push(tx(BOB, MF, "mft_transfer_call", json!({"token_id": ":0", "receiver_id": FARM, "amount": "50", "msg": "mf.test@0#0"}), 1));
        sc.ops.push(unstake(DAN, S1, Some(1)));
        sc.ops.push(tx(ALICE, MF, "mft_transfer_call", json!({"token_id": ":1", "receiver_id": FARM, "amount": "5", "msg": ""}), 1));
        sc.ops.push(stake(CAROL, S1, 50));
        sc.ops.push(tx(BOB, FARM, "storage_deposit", json!({ "account_id": ALICE }), NEAR / 10));
        sc.init.set_bal("mf.test@1", ALICE, 50);
        sc.init.set_bal(S1, CAROL, 50);
        sc.inv = Box::new(|env, w| {
            let v = env.view(w, FARM);
            books_inv(w, &v, "f03", SEEDS)?;
            stakes_inv(&v, "f03")
        });
        sc.step = Box::new(mine_judge);
        sc
    }));
    v
}

// ---- F04: failed withdrawals

fn own_callbacks(key: &'static str) -> Box<dyn Fn(&Env, &World, &World, &[Exec]) -> R + Send + Sync> {
    Box::new(move |_, _, _, log| {
        for e in log {
            if e.pred == FARM && e.recv == FARM {
                ensure!(e.ok, format!("{}:{}", key, e.method), "the contract's own {}({}) failed: {}", e.method, e.args, e.err);
            }
        }
        Ok(())
    })
}
pub fn f04(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    let inv = |env: &Env, w: &World| {
        let v = env.view(w, FARM);
        books_inv(w, &v, "f04", SEEDS)?;
        books_inv(w, &v, "f04", REWS)?;
        stakes_inv(&v, "f04")?;
        if w.quiet() {
            for a in WHO {
                let (s, r) = (stakes(&v, a), rewards(&v, a));
                for t in SEEDS {
                    let n = big(of(&s, t)) + w.bal(t, a);
                    ensure!(n == w.g(&format!("own.{}.{}", t, a)), "f04:lost", "{} has {} of {} staked and in the wallet, had {}", a, n, t, w.g(&format!("own.{}.{}", t, a)));
                }
                for t in REWS {
                    let mut n = big(of(&r, t)) + w.bal(t, a);
                    for f in live(&v) {
                        if f.rew == *t {
                            n += pending(&v, a, &f.id);
                        }
                    }
                    let had = w.g(&format!("own.{}.{}", t, a));
                    ensure!(n >= had, "f04:lost", "{} has {} of {} as rewards and in the wallet, had {}", a, n, t, had);
                }
            }
        }
        Ok(())
    };
    fn own(s: &mut Sb) {
        let v = s.env.view(&s.w, FARM);
        for a in WHO {
            for t in SEEDS {
                let n = of(&stakes(&v, a), t) + s.w.bal(t, a);
                s.w.gset(&format!("own.{}.{}", t, a), n);
            }
            for t in REWS {
                let n = of(&rewards(&v, a), t) + s.w.bal(t, a);
                s.w.gset(&format!("own.{}.{}", t, a), n);
            }
        }
    }
    v.push(mk(cx, "withdrawals in flight", move |cx| {
        let mut s = base(cx);
        s.w.ts += 65 * SEC;
        s.must(ALICE, FARM, "claim_reward_by_seed", json!({ "seed_id": S1 }), 0);
        may_fail(&mut s);
        s.w.set_bal(R1, CAROL, 0);
        s.w.set_bal(R2, CAROL, 0);
        own(&mut s);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.interleave = true;
        sc.max_pending = 3;
        sc.depth = if cx.thorough { 8 } else { 7 };
        sc.ops = vec![
            unstake(ALICE, S1, None),
            unstake_but(ALICE, M0, 1),
            unstake(ALICE, M0, None),
            take(ALICE, R1, None),
            take_but(ALICE, R1, 1),
            stake(ALICE, S1, 100),
            claim_seed(ALICE, S1),
            wait(70),
            clean("s1.test#0"),
        ];
        sc.step = own_callbacks("f04");
        sc.inv = Box::new(inv);
        sc
    }));
    v.push(mk(cx, "withdrawals in flight from accounts being closed", move |cx| {
        let mut s = base(cx);
        // bob has stakes but no rewards yet, dan has only rewards
        for t in [S1, M0] {
            s.w.set_bal(t, BOB, 0);
            s.w.set_bal(t, DAN, 0);
        }
        put(&mut s, BOB, S1, 77, "");
        put(&mut s, BOB, M0, 50, "");
        put(&mut s, DAN, S1, 1000, "");
        s.w.ts += 65 * SEC;
        s.must(ALICE, FARM, "withdraw_seed", json!({"seed_id": S1, "amount": "300"}), 1);
        s.must(DAN, FARM, "withdraw_seed", json!({"seed_id": S1, "amount": "1000"}), 1);
        s.must(BOB, FARM, "withdraw_seed", json!({"seed_id": S1, "amount": "77"}), 1);
        s.must(BOB, FARM, "withdraw_seed", json!({"seed_id": M0, "amount": "50"}), 1);
        for t in [R1] {
            s.must(BOB, FARM, "withdraw_reward", json!({ "token_id": t }), 1);
        }
        for (t, n) in [(S1, 77), (M0, 50)] {
            let (at, m, a) = put_args(t, n, "");
            s.must(BOB, &at, m, a, 1);
        }
        may_fail(&mut s);
        s.w.set_bal(R1, CAROL, 0);
        s.w.set_bal(R2, CAROL, 0);
        own(&mut s);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.interleave = true;
        sc.max_pending = 3;
        sc.depth = if cx.thorough { 8 } else { 7 };
        sc.ops = vec![
            unstake(BOB, S1, None),
            unstake(BOB, M0, None),
            unstake_but(BOB, S1, 1),
            take(DAN, R1, None),
            tx(BOB, FARM, "storage_unregister", json!({}), 1),
            tx(DAN, FARM, "storage_unregister", json!({}), 1),
            tx(BOB, FARM, "storage_deposit", json!({}), MIN_STORAGE),
            claim_seed(BOB, S1),
            stake(BOB, S1, 20),
            wait(70),
        ];
        sc.step = own_callbacks("f04");
        sc.inv = Box::new(inv);
        sc
    }));
    v
}

// ---- F05: the life of a farm

pub fn seed_info(v: &Viewer, s: &str) -> Option<(Vec<String>, u64, u128)> {
    let i = v.get("get_seed_info", json!({ "seed_id": s }));
    if i.is_null() {
        return None;
    }
    let mut f: Vec<String> = i["farms"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    f.sort();
    Some((f, i["next_index"].as_u64().unwrap(), u(&i["min_deposit"])))
}
pub fn owner_of(v: &Viewer) -> String {
    v.get("get_metadata", json!({}))["owner_id"].as_str().unwrap_or("").to_string()
}
fn life_inv(env: &Env, w: &World) -> R {
    let v = env.view(w, FARM);
    let l = live(&v);
    let md = v.get("get_metadata", json!({}));
    ensure!(u(&md["farm_count"]) == l.len() as u128 && u(&v.get("get_number_of_farms", json!({}))) == l.len() as u128, "f05:count", "{} farms listed, {} counted", l.len(), md["farm_count"]);
    ensure!(u(&v.get("get_number_of_outdated_farms", json!({}))) == old(&v).len() as u128, "f05:count", "outdated farms listed and counted differ");
    for (s, _) in seeds(&v) {
        let (ids, _, _) = seed_info(&v, &s).expect("seed");
        let mine: Vec<String> = l.iter().filter(|f| f.seed == s).map(|f| f.id.clone()).collect();
        ensure!(ids == mine, "f05:list", "the farms of {} are {:?} in one answer and {:?} in another", s, ids, mine);
        let mut by: Vec<FarmObs> = v.get("list_farms_by_seed", json!({ "seed_id": s })).as_array().unwrap().iter().map(farm_of).collect();
        by.sort_by(|a, b| a.id.cmp(&b.id));
        let all: Vec<FarmObs> = l.iter().filter(|f| f.seed == s).cloned().collect();
        ensure!(by == all, "f05:list", "the farms of {} are told in two ways: {:?} and {:?}", s, by, all);
    }
    for f in &l {
        let g = v.get("get_farm", json!({ "farm_id": f.id }));
        ensure!(farm_of(&g) == *f, "f05:list", "farm {} is told in two ways", f.id);
        ensure!(v.get("get_outdated_farm", json!({ "farm_id": f.id })).is_null(), "f05:list", "farm {} is live and outdated", f.id);
        ensure!(f.status != "Cleared", "f05:list", "farm {} is listed although cleared", f.id);
    }
    Ok(())
}
fn life_judge(env: &Env, pre: &World, post: &World, log: &[Exec]) -> R {
    let (v, p) = (env.view(pre, FARM), env.view(post, FARM));
    let (l0, o0) = (live(&v), old(&v));
    let (l1, o1) = (live(&p), old(&p));
    let none = Exec {
        pred: "time".into(),
        recv: String::new(),
        method: "passes".into(),
        ok: true,
        err: String::new(),
        logs: vec![],
        args: String::new(),
        deposit: 0,
        ret: None,
        inputs: vec![],
        vals: vec![],
    };
    let e = log.first().unwrap_or(&none);
    let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
    let what = format!("{}.{}({}) by {}", e.recv, e.method, e.args, e.pred);
    let boss = e.pred == owner_of(&v);
    let now = sec(post);
    // reward arriving
    let sent: Option<(String, u128)> =
        if e.method == "ft_transfer_call" && e.ok && a["msg"] != "" { Some((a["msg"].as_str().unwrap().to_string(), u(&a["amount"]))) } else { None };
    let took = pre.bal(&e.recv, &e.pred).saturating_sub(post.bal(&e.recv, &e.pred));
    if let Some((id, n)) = &sent {
        let may = l0.iter().any(|f| f.id == *id && f.rew == e.recv && (f.status == "Created" || f.status == "Running"));
        ensure!(took == if may { *n } else { 0 }, "f05:fund", "{} took {} of {}, farm {:?}", what, took, n, l0.iter().find(|f| f.id == *id));
    }
    for f in &l0 {
        let g = match l1.iter().find(|g| g.id == f.id) {
            None => {
                let g = o1.iter().find(|g| g.id == f.id);
                ensure!(g.is_some() && e.method == "force_clean_farm" && boss && f.status == "Ended", "f05:clear", "{} removed farm {:?}", what, f);
                let g = g.unwrap();
                ensure!(g.status == "Cleared" && g.unclaimed == 0 && g.claimed == g.total && g.total == f.total, "f05:clear", "{} made {:?} of {:?}", what, g, f);
                ensure!(g.ben == f.ben + (f.total - f.claimed), "f05:clear", "{} made {:?} of {:?}", what, g, f);
                continue;
            }
            Some(g) => g,
        };
        let fund = sent.as_ref().filter(|s| s.0 == f.id).map(|_| took).unwrap_or(0);
        ensure!(g.seed == f.seed && g.rew == f.rew && g.per == f.per && g.every == f.every, "f05:terms", "{} changed the terms of {:?} to {:?}", what, f, g);
        ensure!(g.total == f.total + fund, "f05:total", "{} changed what farm {} got from {} to {}", what, f.id, f.total, g.total);
        ensure!(g.claimed >= f.claimed && g.ben >= f.ben && g.round >= f.round && g.claimed + g.unclaimed >= f.claimed + f.unclaimed, "f05:back", "{} turned back {:?} to {:?}", what, f, g);
        let started = f.status == "Created" && fund > 0;
        let start = if started && f.start == 0 { now } else { f.start };
        ensure!(g.start == start, "f05:start", "{} moved the start of farm {} from {} to {}", what, f.id, f.start, g.start);
        let all = g.claimed + g.unclaimed == g.total;
        let want = if f.status == "Created" && !started {
            "Created"
        } else if f.status == "Ended" || all {
            "Ended"
        } else {
            "Running"
        };
        ensure!(g.status == want, "f05:status", "{} made farm {} {}, expected {}: {:?}", what, f.id, g.status, want, g);
        if now < g.start {
            ensure!(g.claimed + g.unclaimed == 0, "f05:early", "farm {:?} gave out before its start (now {})", g, now);
        }
    }
    for f in &o0 {
        ensure!(o1.contains(f), "f05:old", "{} changed the outdated farm {:?}", what, f);
    }
    ensure!(o1.len() + l1.len() >= o0.len() + l0.len(), "f05:gone", "{} made a farm disappear", what);
    if e.method == "force_clean_farm" {
        let did = l0.len() > l1.len();
        let should = boss && l0.iter().any(|f| f.id == a["farm_id"].as_str().unwrap() && f.status == "Ended");
        ensure!(did == should, "f05:clear", "{}: cleared {}, should {}", what, did, should);
    }
    // new ones
    let fresh: Vec<&FarmObs> = l1.iter().filter(|g| !l0.iter().any(|f| f.id == g.id)).collect();
    let ask = e.method == "create_simple_farm" && e.recv == FARM;
    let t = &a["terms"];
    let cost = (post.kv[FARM].usage as u128 - (pre.kv[FARM].usage as u128).min(post.kv[FARM].usage as u128)) * BYTE;
    if !fresh.is_empty() {
        ensure!(ask && boss && e.ok && fresh.len() == 1, "f05:new", "{} made {:?}", what, fresh);
        let g = fresh[0];
        let s = t["seed_id"].as_str().unwrap();
        let (_, n0, m0) = seed_info(&v, s).unwrap_or((vec![], 0, u(&a["min_deposit"])));
        let (_, n1, m1) = seed_info(&p, s).unwrap();
        ensure!(g.id == format!("{}#{}", s, n0) && n1 == n0 + 1, "f05:id", "{} made {}, the number was {} and is {}", what, g.id, n0, n1);
        ensure!(!o0.iter().any(|f| f.id == g.id), "f05:id", "{} made {} once more", what, g.id);
        ensure!(m0 == m1, "f05:min", "{} made the least stake of {} {}, was {}", what, s, m1, m0);
        ensure!(
            g.status == "Created" && g.total + g.claimed + g.unclaimed + g.ben + g.round == 0 && g.seed == s && t["reward_token"] == g.rew[..] && t["start_at"] == g.start && u(&t["reward_per_session"]) == g.per && t["session_interval"] == g.every,
            "f05:new",
            "{} made {:?}",
            what,
            g
        );
        ensure!(g.per > 0 && g.every > 0, "f05:terms", "{} made a farm that can never give out its rewards", what);
        ensure!(pre.near_of(&e.pred) - post.near_of(&e.pred) == cost as i128, "f05:cost", "{} cost {}, the storage is worth {}", what, pre.near_of(&e.pred) - post.near_of(&e.pred), cost);
    } else if ask {
        ensure!(!e.ok, "f05:new", "{} made no farm", what);
        let ok = boss && u(&t["reward_per_session"]) > 0 && t["session_interval"] != 0 && e.deposit >= NEAR / 10;
        ensure!(!ok, "f05:refused", "{} was refused: {}", what, e.err);
    }
    // the least stake
    for s in seeds(&v).keys() {
        let (m0, m1) = (seed_info(&v, s).unwrap().2, seed_info(&p, s).unwrap().2);
        if e.method == "modify_seed_min_deposit" && boss && a["seed_id"] == s[..] {
            ensure!(m1 == u(&a["min_deposit"]), "f05:min", "{} made the least stake of {} {}", what, s, m1);
        } else {
            ensure!(m0 == m1, "f05:min", "{} changed the least stake of {} from {} to {}", what, s, m0, m1);
        }
        let (c0, c1) = (seeds(&v)[s], seeds(&p)[s]);
        ensure!(c1 <= c0 || c1 - c0 >= m0, "f05:min", "{} staked {} of {}, the least is {}", what, c1.saturating_sub(c0), s, m0);
    }
    Ok(())
}
pub fn create_by(who: &'static str, seed: &'static str, start: u64, per: u128, every: u64, dep: u128) -> Op {
    tx(who, FARM, "create_simple_farm", json!({"terms": terms(seed, R2, start, per, every), "min_deposit": "5"}), dep)
}
pub fn f05(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    v.push(mk(cx, "creating, paying, ending, clearing", move |cx| {
        let mut s = base(cx);
        let t = sec(&s.w);
        s.w.set_bal(S1, BOB, 1000);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.depth = if cx.thorough { 6 } else { 5 };
        sc.ops = vec![
            create_by(OWNER, S1, 0, 30_011, 50, NEAR / 10),
            create_by(OWNER, "mf.test@1", t + 50, 30_011, 50, NEAR / 10),
            create_by(OWNER, M0, t - 75, 30_011, 50, NEAR / 10),
            create_by(OWNER, S1, 0, 30_011, 50, 10 * BYTE),
            create_by(OWNER, S1, 0, 30_011, 0, NEAR / 10),
            create_by(OWNER, S1, 0, 0, 50, NEAR / 10),
            create_by(ALICE, S1, 0, 30_011, 50, NEAR / 10),
            fund(R1, 300_000, "s1.test#0"),
            fund(R2, 70_000, "s1.test#1"),
            fund(R2, 60_022, "s1.test#2"),
            fund(R2, 1, "mf.test@1#0"),
            fund(R2, 90_000, "mf.test@0#1"),
            fund(R1, 90_000, "s1.test#1"),
            clean("s1.test#0"),
            clean("s1.test#2"),
            tx(ALICE, FARM, "force_clean_farm", json!({"farm_id": "s1.test#0"}), 0),
            claim_seed(ALICE, S1),
            unstake(ALICE, S1, None),
            unstake(ALICE, M0, None),
            stake(BOB, S1, 9),
            stake(BOB, M0, 9),
            stake(BOB, S1, 10),
            tx(OWNER, FARM, "modify_seed_min_deposit", json!({"seed_id": S1, "min_deposit": "9"}), 0),
            tx(BOB, FARM, "modify_seed_min_deposit", json!({"seed_id": S1, "min_deposit": "8"}), 0),
            tx(OWNER, FARM, "set_owner", json!({ "owner_id": ALICE }), 0),
            wait(60),
            wait(335),
        ];
        sc.inv = Box::new(life_inv);
        sc.step = Box::new(life_judge);
        sc
    }));
    v
}

// ---- F08: leaving

pub fn call_in(env: &Env, w: &mut World, who: &str, at: &str, m: &str, a: Value, dep: u128) -> Exec {
    let mut ch = Chooser::new(vec![]);
    let (_, e) = env.submit(w, &mut ch, who, at, m, a, dep);
    env.settle(w, &mut ch, &mut vec![]);
    env.cleanup(w);
    e
}
/// Takes everything out and closes the account: paid exactly what was recorded.
pub fn leave(env: &Env, w: &mut World, who: &str) -> R {
    let v = env.view(w, FARM);
    let (dep, _) = match paid(&v, who) {
        Some(p) => p,
        None => return Ok(()),
    };
    let w0 = w.clone();
    let mut due: BTreeMap<String, u128> = rewards(&v, who);
    for f in live(&v) {
        *due.entry(f.rew.clone()).or_default() += pending(&v, who, &f.id);
    }
    let st = stakes(&v, who);
    for (s, n) in &st {
        let e = call_in(env, w, who, FARM, "withdraw_seed", json!({"seed_id": s, "amount": n.to_string()}), 1);
        ensure!(e.ok, "f08:unstake", "{} cannot unstake {} of {}: {}", who, n, s, e.err);
        ensure!(w.bal(s, who) == w0.bal(s, who) + n, "f08:unstake", "{} unstaked {} of {} and got {}", who, n, s, w.bal(s, who) - w0.bal(s, who));
    }
    for t in rewards(&env.view(w, FARM), who).keys() {
        let e = call_in(env, w, who, FARM, "withdraw_reward", json!({ "token_id": t }), 1);
        ensure!(e.ok, "f08:reward", "{} cannot take {}: {}", who, t, e.err);
    }
    for (t, n) in &due {
        let got = w.bal(t, who) - w0.bal(t, who);
        ensure!(got == *n, "f08:reward", "{} was due {} of {} and got {}", who, n, t, got);
    }
    let n0 = w.near_of(who);
    let e = call_in(env, w, who, FARM, "storage_unregister", json!({}), 1);
    ensure!(e.ok, "f08:leave", "{} took everything and cannot close the account: {}", who, e.err);
    ensure!(w.near_of(who) - n0 == dep as i128 - 1, "f08:leave", "{} had paid {} for storage and got {}", who, dep, w.near_of(who) - n0 + 1);
    ensure!(paid(&env.view(w, FARM), who).is_none(), "f08:leave", "{} closed the account, it is still there", who);
    Ok(())
}
/// Comes (again), stakes and takes it out again.
pub fn come(env: &Env, w: &mut World, who: &str) -> R {
    let v = env.view(w, FARM);
    if paid(&v, who).is_none() {
        let e = call_in(env, w, who, FARM, "storage_deposit", json!({}), NEAR);
        ensure!(e.ok, "f08:join", "{} cannot register: {}", who, e.err);
    } else {
        let e = call_in(env, w, who, FARM, "storage_deposit", json!({}), NEAR);
        ensure!(e.ok, "f08:join", "{} cannot add to the storage deposit: {}", who, e.err);
    }
    for s in seeds(&v).keys() {
        let n = seed_info(&v, s).unwrap().2.max(7);
        w.set_bal(s, who, n);
        let before = of(&stakes(&env.view(w, FARM), who), s);
        let (at, m, a) = put_args(s, n, "");
        call_in(env, w, who, &at, m, a, 1);
        let after = of(&stakes(&env.view(w, FARM), who), s);
        ensure!(after == before + n, "f08:stake", "{} cannot stake {} of {}: has {}, had {}", who, n, s, after, before);
        w.set_bal(s, who, 0);
    }
    leave(env, w, who)
}
pub fn free(env: &Env, w: &World) -> R {
    if !w.quiet() {
        return Ok(());
    }
    for who in [ALICE, BOB, DAN] {
        leave(env, &mut w.clone(), who)?;
        come(env, &mut w.clone(), who)?;
    }
    Ok(())
}
pub fn f08(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    v.push(mk(cx, "whatever farms there are", move |cx| {
        let mut s = base(cx);
        let t = sec(&s.w);
        s.must(OWNER, FARM, "force_clean_farm", json!({"farm_id": "x.test#0"}), 0);
        s.w.set_bal(R2, CAROL, 5_000_000);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.depth = if cx.thorough { 5 } else { 4 };
        sc.ops = vec![
            create_by(OWNER, S1, 0, 30_011, 0, NEAR / 10),
            create_by(OWNER, S1, 0, 0, 50, NEAR / 10),
            create_by(OWNER, S1, 1, u128::MAX, 1, NEAR / 10),
            create_by(OWNER, S1, t + 10, u128::MAX / 2, 1, NEAR / 10),
            create_by(OWNER, S1, u32::MAX as u64, 1, 1, NEAR / 10),
            create_by(OWNER, M0, 1, 1, u32::MAX as u64, NEAR / 10),
            fund(R2, 70_001, "s1.test#2"),
            fund(R2, 70_003, "mf.test@0#1"),
            stake(BOB, S1, 10),
            claim_seed(DAN, S1),
            unstake(ALICE, S1, None),
            clean("s1.test#0"),
            wait(60),
            wait(3600 * 24 * 365),
        ];
        sc.inv = Box::new(free);
        sc
    }));
    v.push(mk(cx, "coming and going", move |cx| {
        let mut s = base(cx);
        s.w.ts += 65 * SEC;
        let mut sc = Scenario::new("", s.env, s.w);
        sc.depth = if cx.thorough { 5 } else { 4 };
        sc.ops = vec![
            stake(BOB, S1, 77),
            stake(DAN, M0, 50),
            unstake(ALICE, S1, None),
            unstake(BOB, S1, None),
            unstake(DAN, M0, Some(20)),
            claim_seed(DAN, S1),
            claim_seed(BOB, S1),
            claim_farm(BOB, "mf.test@0#0"),
            take(ALICE, R1, None),
            take_named(ALICE, R1),
            take_named(BOB, R1),
            take(ALICE, R1, Some(5)),
            tx(BOB, FARM, "storage_unregister", json!({}), 1),
            tx(BOB, FARM, "storage_deposit", json!({}), MIN_STORAGE),
            tx(ALICE, FARM, "storage_withdraw", json!({}), 1),
            tx(BOB, FARM, "remove_user_rps_by_farm", json!({"farm_id": "s1.test#0"}), 0),
            clean("s1.test#0"),
            clean("mf.test@0#0"),
            wait(60),
            wait(400),
        ];
        sc.inv = Box::new(free);
        sc
    }));
    v
}
