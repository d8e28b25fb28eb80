//! Reference model of the stable, rated and degen pools: the curve
//! A*n^n*sum(x) + D = A*n^n*D + D^(n+1)/(n^n*prod(x)), solved with 2^40 times the precision of the
//! contracts, where x are the reserves times their price. Independent of the contracts' iteration.
use crate::exh::*;
use crate::model::*;
use crate::vm::*;
use num_bigint::BigInt;
use num_traits::{One, Signed, Zero};
use serde_json::{json, Value};

pub fn p10(n: u32) -> BigInt {
    BigInt::from(10).pow(n)
}
fn scale() -> BigInt {
    BigInt::one() << 40usize
}

#[derive(Clone, Debug, PartialEq)]
pub struct Curve {
    pub kind: String,
    pub toks: Vec<String>,
    pub dec: Vec<u32>,
    pub target: u32,
    /// Reserves in the common precision.
    pub c: Vec<BigInt>,
    pub rates: Vec<BigInt>,
    pub fee: BigInt,
    pub admin: BigInt,
    pub supply: BigInt,
    pub amp: BigInt,
    pub ex: BigInt,
    pub rf: Option<BigInt>,
    pub vol: Vec<(BigInt, BigInt)>,
}

/// What a call must do to the pool and the user, exactly (in scaled units where noted).
#[derive(Clone, Debug, Default)]
pub struct Swapped {
    /// Output in the common precision, scaled.
    pub out: BigInt,
    /// Shares for exchange and referrer together, scaled.
    pub admin_shares: BigInt,
}

impl Curve {
    pub fn read(v: &Viewer, id: u64, referrer: &str) -> Option<Curve> {
        let kind = pool(v, id).kind;
        let (m, target) = match &kind[..] {
            "STABLE_SWAP" => ("get_stable_pool", 18),
            "RATED_SWAP" => ("get_rated_pool", 24),
            "DEGEN_SWAP" => ("get_degen_pool", 24),
            _ => return None,
        };
        let p = v.get(m, json!({ "pool_id": id }));
        let toks: Vec<String> = p["token_account_ids"].as_array()?.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
        let bigs = |x: &Value| -> Vec<BigInt> { x.as_array().map(|a| a.iter().map(bigv).collect()).unwrap_or_default() };
        let rates = match &kind[..] {
            "RATED_SWAP" => bigs(&p["rates"]),
            "DEGEN_SWAP" => bigs(&p["degens"]),
            _ => toks.iter().map(|_| p10(24)).collect(),
        };
        let md = v.get("metadata", json!({}));
        let reg = v.get("mft_has_registered", json!({"token_id": format!(":{}", id), "account_id": referrer})) == json!(true);
        Some(Curve {
            kind,
            dec: p["decimals"].as_array()?.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect(),
            target,
            c: bigs(&p["c_amounts"]),
            rates,
            fee: big(u(&p["total_fee"])),
            admin: big(u(&md["admin_fee_bps"])),
            supply: bigv(&p["shares_total_supply"]),
            amp: big(u(&p["amp"])),
            ex: big(shares(v, id, crate::chain::EX)),
            rf: if reg { Some(big(shares(v, id, referrer))) } else { None },
            vol: volumes(v, id),
            toks,
        })
    }
    pub fn n(&self) -> usize {
        self.c.len()
    }
    /// Token amount to the common precision, scaled.
    pub fn up(&self, i: usize, raw: &BigInt) -> BigInt {
        if self.dec[i] <= self.target {
            raw * p10(self.target - self.dec[i]) * scale()
        } else {
            raw * scale() / p10(self.dec[i] - self.target)
        }
    }
    /// As the pool books what comes in: whole units of the common precision.
    pub fn booked(&self, i: usize, raw: &BigInt) -> BigInt {
        self.up(i, raw) / scale() * scale()
    }
    /// Scaled common precision to tokens (scaled).
    pub fn down(&self, i: usize, x: &BigInt) -> BigInt {
        if self.dec[i] <= self.target {
            x / p10(self.target - self.dec[i])
        } else {
            x * p10(self.dec[i] - self.target)
        }
    }
    /// One unit of the common precision in units of the token, at least one unit.
    pub fn grain(&self, i: usize) -> BigInt {
        if self.dec[i] <= self.target {
            BigInt::one()
        } else {
            p10(self.dec[i] - self.target)
        }
    }
    pub fn scaled(&self) -> Vec<BigInt> {
        self.c.iter().map(|x| x * scale()).collect()
    }
    fn values(&self, c: &[BigInt]) -> Vec<BigInt> {
        c.iter().zip(&self.rates).map(|(c, r)| c * r / p10(24)).collect()
    }
    fn ann(&self) -> BigInt {
        &self.amp * BigInt::from(self.n() as u64).pow(self.n() as u32)
    }
    /// The invariant of reserves given in scaled common precision; scaled.
    pub fn d_of(&self, c: &[BigInt]) -> BigInt {
        let x = self.values(c);
        let n = BigInt::from(self.n() as u64);
        let s: BigInt = x.iter().sum();
        if x.iter().any(|v| !v.is_positive()) {
            return BigInt::zero();
        }
        let ann = self.ann();
        let mut d = s.clone();
        for _ in 0..1000 {
            let mut dp = d.clone();
            for v in &x {
                dp = dp * &d / (v * &n);
            }
            let nd: BigInt = (&ann * &s + &dp * &n) * &d / ((&ann - 1) * &d + (&n + 1) * &dp);
            let diff = (&nd - &d).abs();
            d = nd;
            if diff <= BigInt::one() {
                break;
            }
        }
        d
    }
    pub fn d(&self) -> BigInt {
        self.d_of(&self.scaled())
    }
    /// Value of token j (scaled) that keeps the invariant when token i has value xi.
    fn y(&self, vals: &[BigInt], d: &BigInt, i: usize, xi: &BigInt, j: usize) -> BigInt {
        let n = BigInt::from(self.n() as u64);
        let ann = self.ann();
        let mut c = d.clone();
        let mut s = BigInt::zero();
        for k in 0..self.n() {
            if k == j {
                continue;
            }
            let v = if k == i { xi } else { &vals[k] };
            s += v;
            c = c * d / (v * &n);
        }
        c = c * d / (&ann * &n);
        let b = s + d / &ann;
        let mut y = d.clone();
        for _ in 0..1000 {
            let ny: BigInt = (&y * &y + &c) / (BigInt::from(2) * &y + &b - d);
            let diff = (&ny - &y).abs();
            y = ny;
            if diff <= BigInt::one() {
                break;
            }
        }
        y
    }
    /// How many times the smallest reserve is below an equal part, at least 1.
    pub fn lopsided(&self) -> BigInt {
        let v = self.values(&self.scaled());
        let m = v.iter().min().cloned().unwrap_or_default();
        if !m.is_positive() {
            return BigInt::one();
        }
        self.d() / (m * BigInt::from(self.n() as u64)) + 1
    }
    pub fn idx(&self, t: &str) -> Option<usize> {
        self.toks.iter().position(|x| x == t)
    }
    /// Swaps a token amount; the model's reserves change, supply grows by the admin part of the fee.
    pub fn swap(&mut self, tin: &str, raw: &BigInt, tout: &str) -> Option<Swapped> {
        let (i, j) = (self.idx(tin)?, self.idx(tout)?);
        if i == j || !raw.is_positive() {
            return None;
        }
        let s = scale();
        let mut c = self.scaled();
        let d = self.d_of(&c);
        let vals = self.values(&c);
        c[i] += self.booked(i, raw);
        let y = self.y(&vals, &d, i, &(&c[i] * &self.rates[i] / p10(24)), j);
        let dy = &vals[j] - &y - &s;
        let dy = if dy.is_negative() { BigInt::zero() } else { dy };
        let fee = &dy * &self.fee / BPS;
        let back = |v: &BigInt| v * p10(24) / &self.rates[j];
        let (out, adm) = (back(&(&dy - &fee)), back(&(&fee * &self.admin / BPS)));
        c[j] -= &out;
        let d1 = self.d_of(&c);
        let mut less = c.clone();
        less[j] -= &adm;
        let d0 = self.d_of(&less);
        if !d0.is_positive() {
            return None;
        }
        let admin_shares = &self.supply * &s * (d1 - &d0) / d0;
        self.c = c.iter().map(|x| x / &s).collect();
        Some(Swapped { out, admin_shares })
    }
    fn imbalance(&self, c0: &[BigInt], c1: &[BigInt]) -> Vec<BigInt> {
        let n = self.n() as u64;
        let (d0, d1) = (self.d_of(c0), self.d_of(c1));
        let bps = (&self.fee * n) / (4 * (n - 1));
        c0.iter().zip(c1).map(|(a, b)| b - (&d1 * a / &d0 - b).abs() * &bps / BPS).collect()
    }
    /// Shares for a deposit (whole, without the fee; for exchange and referrer), scaled.
    pub fn add(&self, raw: &[BigInt]) -> Option<(BigInt, BigInt)> {
        let s = scale();
        let c0 = self.scaled();
        let c1: Vec<BigInt> = (0..self.n()).map(|i| &c0[i] + self.booked(i, &raw[i])).collect();
        if self.supply.is_zero() {
            return if c1.iter().any(|x| x.is_zero()) { None } else { Some((self.d_of(&c1), BigInt::zero())) };
        }
        let (d0, d1) = (self.d_of(&c0), self.d_of(&c1));
        let d2 = self.d_of(&self.imbalance(&c0, &c1));
        if d1 <= d0 {
            return None;
        }
        Some((&self.supply * &s * (&d2 - &d0) / &d0, &self.supply * &s * (d1 - d2) / d0 * &self.admin / BPS))
    }
    /// Shares burned for taking out these amounts, and those minted for the admin fee; scaled.
    pub fn take(&self, raw: &[BigInt]) -> Option<(BigInt, BigInt)> {
        let s = scale();
        let c0 = self.scaled();
        // what leaves is rounded up to whole units of the common precision
        let c1: Vec<BigInt> = (0..self.n()).map(|i| &c0[i] - (self.up(i, &raw[i]) + &s - 1) / &s * &s).collect();
        if c1.iter().any(|x| !x.is_positive()) {
            return None;
        }
        let (d0, d1) = (self.d_of(&c0), self.d_of(&c1));
        let d2 = self.d_of(&self.imbalance(&c0, &c1));
        if d1 >= d0 {
            return None;
        }
        Some((&self.supply * &s * (&d0 - &d2) / &d0, &self.supply * &s * (d1 - d2) / d0 * &self.admin / BPS))
    }
}
/// |a - b| in whole units, b scaled.
pub fn off(a: &BigInt, b: &BigInt) -> BigInt {
    (a * scale() - b) / scale()
}
