//! Reference model of simple pools: constant product with fee, in unbounded integers.
use crate::exh::*;
use crate::vm::*;
use num_bigint::BigInt;
use num_traits::{Signed, Zero};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub const BPS: u32 = 10_000;

#[derive(Clone, Debug, PartialEq)]
pub struct MPool {
    pub toks: Vec<String>,
    pub r: Vec<BigInt>,
    pub fee: BigInt,
    pub supply: BigInt,
    /// Shares of the exchange and of the referrer (None: not registered in the pool).
    pub ex: BigInt,
    pub rf: Option<BigInt>,
    pub vol: Vec<(BigInt, BigInt)>,
}

#[derive(Clone)]
pub struct Model {
    pub pools: BTreeMap<u64, MPool>,
    pub admin: BigInt,
    pub referrer: String,
    pub ref_bps: BigInt,
}

pub fn bigv(v: &Value) -> BigInt {
    v.as_str().and_then(|s| s.parse().ok()).unwrap_or_else(|| panic!("VIEW_FAILED not a number({})", v))
}
pub fn volumes(v: &Viewer, id: u64) -> Vec<(BigInt, BigInt)> {
    v.get("get_pool_volumes", json!({ "pool_id": id })).as_array().map(|a| a.iter().map(|x| (bigv(&x["input"]), bigv(&x["output"]))).collect()).unwrap_or_default()
}

impl Model {
    /// The simple pools among `ids`, as the contract shows them.
    pub fn read(v: &Viewer, ids: &[u64], referrer: &str) -> Model {
        let md = v.get("metadata", json!({}));
        let mut pools = BTreeMap::new();
        for id in ids {
            let p = pool(v, *id);
            if p.kind != "SIMPLE_POOL" {
                continue;
            }
            let reg = v.get("mft_has_registered", json!({"token_id": format!(":{}", id), "account_id": referrer})) == json!(true);
            pools.insert(
                *id,
                MPool {
                    toks: p.tokens,
                    r: p.amounts.iter().map(|x| big(*x)).collect(),
                    fee: big(p.fee),
                    supply: big(p.supply),
                    ex: big(shares(v, *id, crate::chain::EX)),
                    rf: if reg { Some(big(shares(v, *id, referrer))) } else { None },
                    vol: volumes(v, *id),
                },
            );
        }
        Model { pools, admin: big(u(&md["admin_fee_bps"])), referrer: referrer.into(), ref_bps: v.get("list_referrals", json!({}))[referrer].as_u64().unwrap_or(0).into() }
    }
    /// Largest number involved (to keep away from the limits of machine integers).
    pub fn largest(&self) -> BigInt {
        self.pools.values().flat_map(|p| p.r.iter().cloned().chain(Some(p.supply.clone()))).max().unwrap_or_default()
    }

    pub fn quote(&self, id: u64, tin: &str, a: &BigInt, tout: &str) -> Option<BigInt> {
        let p = self.pools.get(&id)?;
        let (i, o) = (p.toks.iter().position(|t| t == tin)?, p.toks.iter().position(|t| t == tout)?);
        if i == o || !a.is_positive() || p.r.iter().any(|x| !x.is_positive()) {
            return None;
        }
        let f = a * (BigInt::from(BPS) - &p.fee);
        Some(&f * &p.r[o] / (&p.r[i] * BPS + &f))
    }
    pub fn quote_by_output(&self, id: u64, tin: &str, out: &BigInt, tout: &str) -> Option<BigInt> {
        let p = self.pools.get(&id)?;
        let (i, o) = (p.toks.iter().position(|t| t == tin)?, p.toks.iter().position(|t| t == tout)?);
        if i == o || !out.is_positive() || p.r.iter().any(|x| !x.is_positive()) || out >= &p.r[o] {
            return None;
        }
        Some(&p.r[i] * out * BPS / ((&p.r[o] - out) * (BigInt::from(BPS) - &p.fee)) + 1)
    }
    /// Books a swap; the admin part of the fee becomes shares.
    pub fn apply(&mut self, id: u64, tin: &str, a: &BigInt, tout: &str, out: &BigInt, referral: bool) -> Option<()> {
        let admin = self.admin.clone();
        let ref_bps = self.ref_bps.clone();
        let p = self.pools.get_mut(&id)?;
        let (i, o) = (p.toks.iter().position(|t| t == tin)?, p.toks.iter().position(|t| t == tout)?);
        let before = (&p.r[i] * &p.r[o]).sqrt();
        p.r[i] += a;
        p.r[o] -= out;
        let after = (&p.r[i] * &p.r[o]).sqrt();
        if after < before {
            return None;
        }
        let grown = (&after - &before) * &p.supply;
        if admin.is_positive() && grown.is_positive() {
            let minted = &grown / (&before * BPS / &admin);
            let rs = match (&mut p.rf, referral) {
                (Some(rf), true) => {
                    let x = &minted * ref_bps / BPS;
                    *rf += &x;
                    x
                }
                _ => BigInt::zero(),
            };
            p.ex += &minted - rs;
            p.supply += minted;
        }
        p.vol[i].0 += a;
        p.vol[i].1 += out;
        Some(())
    }

    /// Runs a list of actions against balances. None: must be refused.
    pub fn run(&mut self, bal: &mut BTreeMap<String, BigInt>, actions: &[Value], start: Option<BigInt>, referral: bool) -> Option<BigInt> {
        let by_out = |a: &Value| a.get("min_amount_out").is_none();
        let kind = by_out(actions.first()?);
        if actions.iter().any(|a| by_out(a) != kind) {
            return None;
        }
        fn take(bal: &mut BTreeMap<String, BigInt>, t: &str, n: &BigInt) -> Option<()> {
            if n.is_zero() {
                return Some(());
            }
            let b = bal.get_mut(t)?;
            if *b < *n {
                return None;
            }
            *b -= n;
            Some(())
        }
        fn give(bal: &mut BTreeMap<String, BigInt>, t: &str, n: &BigInt) {
            if !n.is_zero() {
                *bal.entry(t.to_string()).or_default() += n;
            }
        }
        let mut last: Option<BigInt> = start;
        let mut owed: Option<(String, BigInt)> = None;
        for a in actions {
            let id = a["pool_id"].as_u64()?;
            let (tin, tout) = (a["token_in"].as_str()?, a["token_out"].as_str()?);
            if !kind {
                let n = match a["amount_in"].as_str() {
                    Some(s) => s.parse().ok()?,
                    None => last.clone()?,
                };
                take(bal, tin, &n)?;
                let out = self.quote(id, tin, &n, tout)?;
                if out < bigv(&a["min_amount_out"]) {
                    return None;
                }
                self.apply(id, tin, &n, tout, &out, referral)?;
                give(bal, tout, &out);
                last = Some(out);
            } else {
                let out = match a["amount_out"].as_str() {
                    Some(s) => {
                        if let Some((t, n)) = owed.take() {
                            take(bal, &t, &n)?;
                        }
                        let out: BigInt = s.parse().ok()?;
                        give(bal, tout, &out);
                        out
                    }
                    None => {
                        let (t, n) = owed.take()?;
                        if t != tout {
                            return None;
                        }
                        n
                    }
                };
                let n = self.quote_by_output(id, tin, &out, tout)?;
                if let Some(m) = a["max_amount_in"].as_str() {
                    if n > m.parse::<BigInt>().ok()? {
                        return None;
                    }
                }
                self.apply(id, tin, &n, tout, &out, referral)?;
                owed = Some((tin.to_string(), n.clone()));
                last = Some(n);
            }
        }
        if let Some((t, n)) = owed {
            take(bal, &t, &n)?;
        }
        last
    }
}
