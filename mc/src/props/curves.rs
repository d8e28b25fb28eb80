//! E07 stable, rated and degen pools against the curve; their part of E09 (fees) and E22 (volumes).
use super::*;
use crate::chain::*;
use crate::curve::*;
use crate::ensure;
use crate::exh::*;
use crate::explore::*;
use crate::model::*;
use crate::ops::*;
use crate::rates::*;
use crate::vm::*;
use crate::Ctx;
use num_bigint::BigInt;
use num_traits::{Signed, Zero};
use serde_json::{json, Value};

pub struct CP {
    pub name: &'static str,
    pub method: &'static str,
    pub toks: &'static [(&'static str, u8)],
    pub fee: u32,
    pub amp: u64,
    /// Reserves in thousandths of a token.
    pub res: &'static [u128],
}
pub const CURVES: &[CP] = &[
    CP { name: "stable, 3 tokens, 18/6/18 decimals", method: "add_stable_swap_pool", toks: &[(T2, 18), (USD, 6), (T3, 18)], fee: 25, amp: 240, res: &[50_000_005, 51_000_001, 49_000_000] },
    CP { name: "stable, 24/18 decimals, amplification 1", method: "add_stable_swap_pool", toks: &[(D24, 24), (T3, 18)], fee: 0, amp: 1, res: &[20_000_123, 175_500_000] },
    CP { name: "rated, 3 tokens", method: "add_rated_swap_pool", toks: &[(WNEAR, 24), (ST, 24), (LI, 24)], fee: 20, amp: 100, res: &[100_000_000, 83_000_011, 77_000_000] },
    CP { name: "degen, 18/6 decimals", method: "add_degen_swap_pool", toks: &[(T1, 18), (USD, 6)], fee: 15, amp: 30, res: &[30_000_005, 110_000_001] },
    CP { name: "stable, 4 tokens, amplification 1000000", method: "add_stable_swap_pool", toks: &[(T1, 18), (T2, 18), (USD, 6), (T3, 18)], fee: 100, amp: 1_000_000, res: &[5_000_005, 5_100_001, 4_900_000, 3_000] },
    CP { name: "rated, far from balance", method: "add_rated_swap_pool", toks: &[(ST, 24), (WNEAR, 24)], fee: 5, amp: 10_000, res: &[2_000_000, 97_000_000] },
    CP { name: "stable, small reserves and a high fee", method: "add_stable_swap_pool", toks: &[(T2, 18), (USD, 6)], fee: 9_999, amp: 50, res: &[13, 17] },
];
fn raw(milli: u128, dec: u8) -> u128 {
    milli * 10u128.pow(dec as u32 - 3)
}
const FUNDS: u128 = 900_000_000_000;

/// A world with just this pool (id 0). Alice and Bob provide liquidity, Bob trades.
pub fn curve_setup(cx: &Ctx, p: &CP, exf: u32, rff: u32, referrer_in: bool) -> Sb {
    let mut s = curve_empty(cx, p, exf, rff);
    let am: Vec<u128> = p.toks.iter().zip(p.res).map(|(t, r)| raw(*r, t.1) + if t.1 == 6 { 1 } else { 12_345 }).collect();
    s.add_stable(ALICE, 0, &am);
    s.add_stable(BOB, 0, &am.iter().map(|x| x / 7 + 1).collect::<Vec<_>>());
    if referrer_in {
        s.must(REF, EX, "mft_register", json!({"token_id": ":0", "account_id": REF}), NEAR / 10);
    }
    s
}
fn curve_empty(cx: &Ctx, p: &CP, exf: u32, rff: u32) -> Sb {
    let mut s = exchange(&cx.ex, exf, rff);
    tokens(&mut s, &[ST, LI, USD, D24]);
    for a in [OWNER, ALICE, BOB] {
        s.storage(a, NEAR / 10);
    }
    s.one(OWNER, "insert_referral", json!({"referral_id": REF, "fee_bps": 2500}));
    rate_quotes(&mut s, 12 * E24 / 10 + 1, 131 * E24 / 100 + 777_777_777, E24);
    s.one(OWNER, "register_rated_token", json!({"rate_type": "STNEAR", "token_id": ST}));
    s.one(OWNER, "register_rated_token", json!({"rate_type": "LINEAR", "token_id": LI}));
    s.must(CAROL, EX, "update_token_rate", json!({ "token_id": ST }), 0);
    s.must(CAROL, EX, "update_token_rate", json!({ "token_id": LI }), 0);
    degen_setup(&mut s, 35_417, 100_013_337);
    for (t, d) in p.toks {
        s.deposit(ALICE, t, raw(FUNDS, *d));
        s.deposit(BOB, t, raw(FUNDS, *d) + 7);
    }
    let toks: Vec<&str> = p.toks.iter().map(|t| t.0).collect();
    let dec: Vec<u8> = p.toks.iter().map(|t| t.1).collect();
    s.pool_of(p.method, &toks, &dec, p.fee, p.amp);
    s
}

pub fn curve_swaps(p: &CP, amounts: &[(u128, u128)]) -> Vec<Op> {
    let mut ops = vec![];
    for (i, (ti, di)) in p.toks.iter().enumerate() {
        for (to, _) in p.toks.iter() {
            if ti == to {
                continue;
            }
            let r = raw(p.res[i], *di);
            for (n, d) in amounts {
                let a = if *d == 0 { *n } else { r / d * n + n };
                for refd in [true, false] {
                    // the referral only matters for the fee split: half of the swaps name one
                    if refd != (n % 2 == 1) {
                        continue;
                    }
                    let mut x = json!({"actions": [act(0, ti, to, Some(a), 0)]});
                    if refd {
                        x["referral_id"] = json!(REF);
                    }
                    ops.push(tx(BOB, EX, "swap", x, 1));
                }
            }
        }
    }
    ops
}
pub fn curve_liq(p: &CP) -> Vec<Op> {
    let n = p.toks.len();
    let mx = (u128::MAX / 4).to_string();
    let r: Vec<u128> = p.toks.iter().zip(p.res).map(|(t, r)| raw(*r, t.1)).collect();
    let mut vs: Vec<Vec<u128>> = vec![r.iter().map(|x| x / 13 + 1).collect()];
    for i in 0..n {
        let mut v = vec![0; n];
        v[i] = 1;
        vs.push(v.clone());
        v[i] = r[i] / 9;
        vs.push(v.clone());
        v[(i + 1) % n] = r[(i + 1) % n] / 500 + 1;
        vs.push(v);
    }
    let mut ops = vec![];
    for v in &vs {
        ops.push(tx(BOB, EX, "add_stable_liquidity", json!({"pool_id": 0, "amounts": strs(v), "min_shares": "0"}), NEAR / 100));
        ops.push(tx(ALICE, EX, "remove_liquidity_by_tokens", json!({"pool_id": 0, "amounts": strs(v), "max_burn_shares": mx}), 1));
    }
    let z: Vec<String> = vec!["0".into(); n];
    for sh in ["1", "7777777", "1000000000000000", "500000000000000000000"] {
        ops.push(tx(BOB, EX, "remove_liquidity", json!({"pool_id": 0, "shares": sh, "min_amounts": z}), 1));
    }
    for who in [ALICE, BOB] {
        ops.push(op(format!("{} removes all shares", short(who)), move |x| {
            let sh = shares(&x.view(EX), 0, who);
            let z: Vec<String> = vec!["0".into(); pool(&x.view(EX), 0).tokens.len()];
            x.call(who, EX, "remove_liquidity", json!({"pool_id": 0, "shares": sh.to_string(), "min_amounts": z}), 1);
            Ok(())
        }));
    }
    ops.push(op("alice removes a third of her shares", |x| {
        let sh = shares(&x.view(EX), 0, ALICE);
        let n = pool(&x.view(EX), 0).tokens.len();
        let z: Vec<String> = vec!["0".into(); n];
        x.call(ALICE, EX, "remove_liquidity", json!({"pool_id": 0, "shares": (sh / 3).to_string(), "min_amounts": z}), 1);
        Ok(())
    }));
    ops
}

#[derive(Clone, Copy, PartialEq)]
pub enum Part {
    Curve,
    Fee,
    Volume,
}

fn near(a: &BigInt, b: &BigInt, tol: &BigInt) -> bool {
    (a - b).abs() <= *tol
}
fn arr(v: &Value) -> Vec<BigInt> {
    v.as_array().map(|a| a.iter().map(bigv).collect()).unwrap_or_default()
}

/// Judges one call on pool 0 against the curve. Tolerances are a few units of the common precision.
pub fn curve_judge(part: Part) -> impl Fn(&Env, &World, &World, &[Exec]) -> R {
    move |env, pre, post, log| {
        let e = match log.first() {
            Some(e) if e.recv == EX && e.pred != EX => e,
            _ => return Ok(()),
        };
        let (v, pv) = (env.view(pre, EX), env.view(post, EX));
        let (c0, c1) = (Curve::read(&v, 0, REF).unwrap(), Curve::read(&pv, 0, REF).unwrap());
        let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
        let n = c0.n();
        let who = &e.pred[..];
        if c0.supply.is_zero() {
            // the first deposit sets the reserves; its shares are the invariant
            let r = if e.method == "add_stable_liquidity" { c0.add(&arr(&a["amounts"])) } else { None };
            match r {
                Some(r) if e.ok => {
                    let am = arr(&a["amounts"]);
                    let sh = big(shares(&pv, 0, who));
                    let tol = c1.lopsided() * 24u32;
                    ensure!(c1.supply == sh && off(&sh, &r.0).abs() <= tol, "e07:first", "{}({}) made {} shares, {} have {}, the curve gives {}", e.method, e.args, c1.supply, who, sh, &r.0 >> 40usize);
                    for i in 0..n {
                        ensure!(c1.c[i] == c0.booked(i, &am[i]) >> 40usize, "e07:first", "{}({}): reserve {} is {}", e.method, e.args, i, c1.c[i]);
                        ensure!(big(deposit_v(&v, who, &c0.toks[i])) - deposit_v(&pv, who, &c0.toks[i]) == am[i], "e07:first", "{}({}) did not take {} of token {}", e.method, e.args, am[i], i);
                    }
                }
                Some(_) => ensure!(a["min_shares"] != "0", "e07:first", "{}({}) was refused: {}", e.method, e.args, e.err),
                None => ensure!(!e.ok, "e07:empty", "{}({}) was accepted by an empty pool", e.method, e.args),
            }
            return Ok(());
        }
        let (d0, d1) = (c0.d(), c1.d());
        let bal = |v: &Viewer, i: usize| big(deposit_v(v, who, &c0.toks[i]));
        let gain: Vec<BigInt> = (0..n).map(|i| bal(&pv, i) - bal(&v, i)).collect();
        let sh = big(shares(&pv, 0, who)) - shares(&v, 0, who);
        let one = p10(c0.target);
        // rounding of the contracts' integer solution, in shares
        // (more of it the further the pool is from balance)
        let lop = c0.lopsided().max(c1.lopsided());
        // (and a deposit of many times the pool multiplies that of the old invariant)
        let stol = ((&c0.supply * &lop * BigInt::from(16u32) << 40usize) / &d0 + 2) * (&d1 / &d0 + 1);
        let ctol = |i: usize| &lop * (BigInt::from(12u32) + p10(24) * 12u32 / &c0.rates[i]);
        let fees = &c1.ex - &c0.ex + c1.rf.clone().unwrap_or_default() - c0.rf.clone().unwrap_or_default();
        if part == Part::Curve && e.ok {
            // what is taken out leaves the minimum reserve
            for k in 0..n {
                ensure!(c1.c[k] >= c0.c[k] || c1.c[k] >= &one / 1000, "e07:minimum", "{}({}) was accepted and left {} of token {}, in units of 10^-{}", e.method, e.args, c1.c[k], k, c0.target);
            }
        }
        if !e.ok {
            ensure!(c0 == c1, "e07:refused", "the refused {}({}) changed the pool", e.method, e.args);
        }
        if part == Part::Curve && c0.rates == c1.rates && c0.amp == c1.amp && c1.supply.is_positive() {
            // the invariant per share never falls, up to the rounding of the last digits
            let (l, r) = (&d1 * &c0.supply, &d0 * &c1.supply);
            let tol = &c0.supply * &lop * (BigInt::from(24u32) << 40usize);
            ensure!(l + tol >= r, "e07:diluted", "{}({}): the value of a share fell from {}/{} to {}/{}", e.method, e.args, d0, c0.supply, d1, c1.supply);
        }
        let enough = |i: usize, x: &BigInt| bal(&v, i) >= *x;
        // reserves well above the minimum
        let roomy = |c: &[BigInt]| c.iter().all(|x| *x > &one / 500);
        match &e.method[..] {
            "swap" => {
                let acts = a["actions"].as_array().unwrap();
                if acts.len() != 1 {
                    return Ok(());
                }
                let x = &acts[0];
                let (tin, tout) = (x["token_in"].as_str().unwrap(), x["token_out"].as_str().unwrap());
                let amt = bigv(&x["amount_in"]);
                let mut m = c0.clone();
                let r = m.swap(tin, &amt, tout);
                let (r, i, j) = match (r, c0.idx(tin), c0.idx(tout)) {
                    (Some(r), Some(i), Some(j)) => (r, i, j),
                    _ => {
                        ensure!(!e.ok, "e07:accept", "{}({}) was accepted", e.method, e.args);
                        return Ok(());
                    }
                };
                if !e.ok {
                    // the admin part of a dust fee may not move the integer invariant
                    let fee = &r.admin_shares >> 40usize;
                    let dust = r.admin_shares.is_positive() && fee <= BigInt::from(1000u32) + &stol;
                    let can = enough(i, &amt) && roomy(&m.c) && x["min_amount_out"] == "0" && !dust;
                    ensure!(!can, "e07:live", "{}({}) was refused: {}", e.method, e.args, e.err);
                    return Ok(());
                }
                if part == Part::Curve {
                    ensure!(gain[i] == -&amt, "e07:paid", "{}({}): {} paid {}", e.method, e.args, who, -&gain[i]);
                    let exact = c0.down(j, &r.out) >> 40usize;
                    let tol = ctol(j) * c0.grain(j) / if c0.dec[j] < c0.target { p10(c0.target - c0.dec[j]) } else { big(1) } + c0.grain(j);
                    ensure!(near(&gain[j], &exact, &tol), "e07:price", "{}({}): {} got {} {}, the curve gives {}", e.method, e.args, who, gain[j], tout, exact);
                    for k in 0..n {
                        ensure!(k == i || k == j || gain[k].is_zero(), "e07:others", "{}({}) changed another balance", e.method, e.args);
                        ensure!(near(&c1.c[k], &m.c[k], &ctol(k)), "e07:reserve", "{}({}): reserve {} is {}, the curve gives {}", e.method, e.args, k, c1.c[k], m.c[k]);
                    }
                    let ret: Value = e.ret.as_ref().and_then(|b| serde_json::from_slice(b).ok()).unwrap_or_default();
                    ensure!(bigv(&ret) == gain[j], "e07:result", "{}({}) returned {}, paid {}", e.method, e.args, ret, gain[j]);
                    ensure!(sh.is_zero(), "e07:shares", "a swap changed the trader's shares");
                }
                if part == Part::Fee {
                    ensure!((off(&fees, &r.admin_shares)).abs() <= stol, "e09:admin", "{}({}): exchange and referrer got {} shares, the admin part of the fee is {}", e.method, e.args, fees, &r.admin_shares >> 40usize);
                    ensure!(&c1.supply - &c0.supply == fees, "e09:supply", "{}({}): the supply grew by {}, the fee shares are {}", e.method, e.args, &c1.supply - &c0.supply, fees);
                    let got = c1.rf.clone().unwrap_or_default() - c0.rf.clone().unwrap_or_default();
                    let want = if a["referral_id"] == REF && c0.rf.is_some() { &fees * 2500 / BPS } else { BigInt::zero() };
                    ensure!(near(&got, &want, &big(1)), "e09:referral", "{}({}): the referrer got {} shares of {}, expected {}", e.method, e.args, got, fees, want);
                }
                if part == Part::Volume {
                    let mut w = c0.vol.clone();
                    w[i].0 += &amt;
                    w[j].1 += &gain[j];
                    ensure!(c1.vol == w, "e22:volume", "{}({}): volumes {:?}, traded were {:?}", e.method, e.args, c1.vol, w);
                }
            }
            "add_stable_liquidity" => {
                let am = arr(&a["amounts"]);
                let r = c0.add(&am);
                let fits = (0..n).all(|i| enough(i, &am[i]));
                let r = match r {
                    Some(r) => r,
                    None => {
                        ensure!(!e.ok, "e07:add-accept", "{}({}) was accepted", e.method, e.args);
                        return Ok(());
                    }
                };
                if !e.ok {
                    // very small deposits may not move the integer invariant
                    let can = fits && (&r.0 >> 40usize) > BigInt::from(1000u32) + &stol && a["min_shares"] == "0";
                    ensure!(!can, "e07:add-live", "{}({}) was refused: {}", e.method, e.args, e.err);
                    return Ok(());
                }
                if part == Part::Curve {
                    for i in 0..n {
                        ensure!(gain[i] == -&am[i], "e07:add-paid", "{}({}): paid {} of token {}", e.method, e.args, -&gain[i], i);
                        ensure!(c1.c[i] == &c0.c[i] + (c0.booked(i, &am[i]) >> 40usize), "e07:add-reserve", "{}({}): reserve {} went from {} to {}", e.method, e.args, i, c0.c[i], c1.c[i]);
                    }
                    ensure!(off(&sh, &r.0).abs() <= stol, "e07:add-shares", "{}({}): {} got {} shares, the curve gives {}", e.method, e.args, who, sh, &r.0 >> 40usize);
                }
                if part == Part::Fee {
                    ensure!(off(&fees, &r.1).abs() <= stol, "e09:add", "{}({}): the exchange got {} shares, the admin part of the fee is {}", e.method, e.args, fees, &r.1 >> 40usize);
                    ensure!(&c1.supply - &c0.supply == &fees + &sh, "e09:add-supply", "{}({}): supply {} to {}", e.method, e.args, c0.supply, c1.supply);
                    ensure!(c1.rf == c0.rf, "e09:add-referral", "adding liquidity paid the referrer");
                }
            }
            "remove_liquidity_by_tokens" => {
                let am = arr(&a["amounts"]);
                let r = c0.take(&am);
                let have = big(shares(&v, 0, who));
                let r = match r {
                    Some(r) => r,
                    None => {
                        ensure!(!e.ok, "e07:take-accept", "{}({}) was accepted", e.method, e.args);
                        return Ok(());
                    }
                };
                if !e.ok {
                    let left: Vec<BigInt> = (0..n).map(|i| &c0.c[i] - (c0.up(i, &am[i]) >> 40usize)).collect();
                    let can = roomy(&left) && (&r.0 >> 40usize) + &stol < have && (&r.0 >> 40usize) > BigInt::from(1000u32) + &stol;
                    ensure!(!can, "e07:take-live", "{}({}) was refused: {}", e.method, e.args, e.err);
                    return Ok(());
                }
                if part == Part::Curve {
                    for i in 0..n {
                        ensure!(gain[i] == am[i], "e07:take-got", "{}({}): got {} of token {}", e.method, e.args, gain[i], i);
                        let w = &c0.c[i] - c0.up(i, &am[i]) / (BigInt::from(1) << 40usize);
                        ensure!(near(&c1.c[i], &w, &big(1)) && c1.c[i] <= w, "e07:take-reserve", "{}({}): reserve {} went from {} to {}", e.method, e.args, i, c0.c[i], c1.c[i]);
                    }
                    ensure!(off(&-&sh, &r.0).abs() <= stol, "e07:take-shares", "{}({}): {} shares were burned, the curve gives {}", e.method, e.args, -&sh, &r.0 >> 40usize);
                }
                if part == Part::Fee {
                    ensure!(off(&fees, &r.1).abs() <= stol, "e09:take", "{}({}): the exchange got {} shares, the admin part of the fee is {}", e.method, e.args, fees, &r.1 >> 40usize);
                    ensure!(&c1.supply - &c0.supply == &fees + &sh, "e09:take-supply", "{}({}): supply {} to {}", e.method, e.args, c0.supply, c1.supply);
                    ensure!(c1.rf == c0.rf, "e09:take-referral", "removing liquidity paid the referrer");
                }
            }
            "remove_liquidity" => {
                let x = bigv(&a["shares"]);
                let have = big(shares(&v, 0, who));
                if !e.ok {
                    let left: Vec<BigInt> = (0..n).map(|i| &c0.c[i] - &c0.c[i] * &x / &c0.supply).collect();
                    ensure!(!(x <= have && x.is_positive() && roomy(&left)), "e07:out-live", "{}({}) was refused: {}", e.method, e.args, e.err);
                    return Ok(());
                }
                if part == Part::Curve {
                    ensure!(sh == -&x, "e07:out-shares", "{}({}): the shares changed by {}", e.method, e.args, sh);
                    for i in 0..n {
                        let c = &c0.c[i] * &x / &c0.supply;
                        ensure!(c1.c[i] == &c0.c[i] - &c, "e07:out-reserve", "{}({}): reserve {} went from {} to {}", e.method, e.args, i, c0.c[i], c1.c[i]);
                        let w = c0.down(i, &(c << 40usize)) >> 40usize;
                        ensure!(gain[i] == w, "e07:out-got", "{}({}): got {} of token {}, the part is {}", e.method, e.args, gain[i], i, w);
                    }
                }
                if part == Part::Fee {
                    ensure!(fees.is_zero() && c1.supply == &c0.supply - &x, "e09:out", "{}({}): supply {} to {}", e.method, e.args, c0.supply, c1.supply);
                }
            }
            _ => {}
        }
        if part == Part::Volume && e.method != "swap" {
            ensure!(c0.vol == c1.vol, "e22:other", "{} changed the volumes", e.method);
        }
        Ok(())
    }
}

pub fn curve_scenarios(cx: &Ctx, part: Part, which: &[usize], exf: u32, rff: u32, refin: bool, depth: usize) -> Mk {
    let mut v: Mk = vec![];
    for i in which {
        let i = *i;
        let p = &CURVES[i];
        let name = format!("{}, fees {}/{}{}", p.name, exf, rff, if refin { "" } else { ", referrer not registered" });
        v.push(mk(cx, &name, move |cx| {
            let p = &CURVES[i];
            let s = curve_setup(cx, p, exf, rff, refin);
            let mut sc = Scenario::new("", s.env, s.w);
            sc.ops = if p.toks.len() > 3 { curve_swaps(p, &[(1, 0), (2, 7)]) } else { curve_swaps(p, &[(1, 0), (1_000_000_001, 0), (2, 1000), (1, 3), (4, 1), (90, 1)]) };
            sc.ops.extend(curve_liq(p));
            sc.depth = depth;
            sc.step = Box::new(curve_judge(part));
            sc
        }));
    }
    v
}

pub fn e07(cx: &Ctx) -> Mk {
    let th = cx.thorough;
    let mut v = curve_scenarios(cx, Part::Curve, &[0, 2, 4], 1600, 400, true, if th { 3 } else { 2 });
    v.extend(curve_scenarios(cx, Part::Curve, &[1, 3, 5, 6], 1600, 400, true, if th { 4 } else { 3 }));
    for i in 0..CURVES.len() {
        v.push(mk(cx, &format!("{}, empty", CURVES[i].name), move |cx| {
            let p = &CURVES[i];
            let s = curve_empty(cx, p, 1600, 400);
            let mut sc = Scenario::new("", s.env, s.w);
            let n = p.toks.len();
            let r: Vec<u128> = p.toks.iter().zip(p.res).map(|(t, r)| raw(*r, t.1)).collect();
            let mut vs = vec![r.clone(), vec![0; n], r.iter().map(|x| x / 13 + 1).collect(), r.iter().map(|x| x + 999_999).collect()];
            for i in 0..n {
                let mut v = r.clone();
                v[i] = 0;
                vs.push(v.clone());
                v[i] = 1;
                vs.push(v.clone());
                v[i] = r[i] * 17;
                vs.push(v);
            }
            for v in &vs {
                sc.ops.push(tx(BOB, EX, "add_stable_liquidity", json!({"pool_id": 0, "amounts": strs(v), "min_shares": "0"}), NEAR / 50));
                sc.ops.push(tx(ALICE, EX, "remove_liquidity_by_tokens", json!({"pool_id": 0, "amounts": strs(v), "max_burn_shares": (u128::MAX / 4).to_string()}), 1));
            }
            let swaps = curve_swaps(p, &[(1, 3)]);
            sc.ops.extend(swaps);
            for who in [ALICE, BOB] {
                sc.ops.push(tx(who, EX, "remove_liquidity", json!({"pool_id": 0, "shares": "1000001", "min_amounts": vec!["0"; n]}), 1));
            }
            sc.depth = if th { 3 } else { 2 };
            sc.step = Box::new(curve_judge(Part::Curve));
            sc
        }));
    }
    v
}
