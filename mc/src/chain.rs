//! The closed world around the contracts: accounts, NEAR balances, token ledgers, receipts.
//! Contract code runs in the VM; every other account is a native actor whose answers are
//! nondeterministic choices made through a `Chooser`.
use crate::vm::*;
use num_bigint::BigInt;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

pub const EX: &str = "ex.test";
pub const FARM: &str = "farm.test";
pub const YOCTO: u128 = 1;
pub const NEAR: u128 = 1_000_000_000_000_000_000_000_000;

/// A recorded, replayable source of nondeterminism. Choice 0 is the default answer.
pub struct Chooser {
    prefix: Vec<u16>,
    pub trace: Vec<(u16, u16)>,
}
impl Chooser {
    pub fn new(prefix: Vec<u16>) -> Chooser {
        Chooser { prefix, trace: vec![] }
    }
    pub fn pick(&mut self, n: usize) -> usize {
        let i = self.trace.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        assert!((c as usize) < n, "ENGINE replay divergence: choice {} of {}", c, n);
        self.trace.push((c, n as u16));
        c as usize
    }
    pub fn choices(&self) -> Vec<u16> {
        self.trace.iter().map(|x| x.0).collect()
    }
    pub fn prefix_len(&self) -> usize {
        self.prefix.len()
    }
}

#[derive(Clone)]
pub enum Reply {
    Ok(String),
    /// Computed from the world (block time) and the arguments.
    Dyn(Arc<dyn Fn(&World, &Value) -> String + Send + Sync>),
    Fail,
    /// Fraction of the `amount` argument, in halves (2 = all), plus an offset, as a JSON string.
    Amount(u128, i128),
}

/// What lives at an account that is not one of the contracts under test.
#[derive(Clone)]
pub enum Actor {
    /// NEP-141 token. `fail`: an outgoing ft_transfer may fail.
    Token { fail: bool },
    /// Wrapped NEAR: a token that can also be unwrapped.
    Wnear { fail: bool },
    /// Many tokens in one contract (the shares of an exchange): its ledgers are named "account@id".
    Mft { fail: bool },
    /// Keeps an honest ledger of cast and removed shadows; may refuse either.
    Shadow,
    /// Answers each listed method with one of the replies; unlisted methods fail.
    Menu(Vec<(&'static str, Vec<Reply>)>),
}

#[derive(Clone, Debug, Hash)]
pub struct Receipt {
    pub id: u64,
    pub pred: String,
    pub recv: String,
    pub signer: String,
    pub actions: Vec<Action>,
    pub inputs: Vec<u64>,
    pub outs: Vec<u64>,
}
impl Receipt {
    pub fn deposit(&self) -> u128 {
        self.actions
            .iter()
            .map(|a| match a {
                Action::Call { deposit, .. } => *deposit,
                Action::Transfer { amount } => *amount,
                Action::Deploy(_) | Action::Other(_) => 0,
            })
            .sum()
    }
    pub fn method(&self) -> String {
        match self.actions.last() {
            Some(Action::Call { method, .. }) => method.clone(),
            Some(Action::Transfer { .. }) => "transfer".into(),
            _ => "?".into(),
        }
    }
}

/// Everything the exploration remembers.
#[derive(Clone)]
pub struct World {
    pub kv: BTreeMap<&'static str, Kv>,
    /// Signed NEAR balances (users start at 0 and may go negative: only differences matter).
    pub near: BTreeMap<String, i128>,
    pub tok: BTreeMap<(String, String), u128>,
    pub ts: u64,
    pub height: u64,
    pub pending: Vec<Receipt>,
    pub data: BTreeMap<u64, PResult>,
    /// Token amounts that are on a contract's ledger but answered by a result nobody consumed yet.
    pub limbo: BTreeMap<u64, Vec<(String, u128)>>,
    pub next: u64,
    pub devs: u32,
    pub ghost: BTreeMap<String, BigInt>,
    pub notes: BTreeMap<String, String>,
    /// Accounts that were upgraded: which of the library they run.
    pub deployed: BTreeMap<&'static str, usize>,
}

#[derive(Clone, Debug)]
pub struct Exec {
    pub pred: String,
    pub recv: String,
    pub method: String,
    pub ok: bool,
    pub err: String,
    pub logs: Vec<String>,
    pub args: String,
    pub deposit: u128,
    pub ret: Option<Vec<u8>>,
    /// Did the promises this call was waiting for succeed?
    pub inputs: Vec<bool>,
    /// The values of those that did.
    pub vals: Vec<Option<Vec<u8>>>,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    /// Did the first receipt (the user's own call) succeed?
    pub ok: bool,
    pub err: String,
    /// Value of the whole transaction, when everything settled.
    pub value: Option<PResult>,
    pub execs: Vec<Exec>,
}
impl Outcome {
    pub fn json(&self) -> Value {
        match &self.value {
            Some(PResult::Ok(v)) => serde_json::from_slice(v).unwrap_or(Value::Null),
            _ => Value::Null,
        }
    }
    pub fn tx_ok(&self) -> bool {
        matches!(self.value, Some(PResult::Ok(_)))
    }
    pub fn logs(&self) -> Vec<String> {
        self.execs.iter().flat_map(|e| e.logs.clone()).collect()
    }
    pub fn find(&self, recv: &str, method: &str) -> Vec<&Exec> {
        self.execs.iter().filter(|e| e.recv == recv && e.method == method).collect()
    }
}

pub struct Env {
    pub codes: BTreeMap<&'static str, Arc<Code>>,
    pub actors: BTreeMap<String, Actor>,
    /// Extra methods of any native actor (a staking token also quotes its price).
    pub menus: BTreeMap<String, Vec<(&'static str, Vec<Reply>)>>,
    pub max_dev: u32,
    /// Contract binaries an upgrade may name.
    pub library: Vec<(String, Arc<Code>)>,
}

impl World {
    pub fn new() -> World {
        World {
            kv: BTreeMap::new(),
            near: BTreeMap::new(),
            tok: BTreeMap::new(),
            ts: 1_700_000_000_000_000_000,
            height: 1000,
            pending: vec![],
            data: BTreeMap::new(),
            limbo: BTreeMap::new(),
            next: 1,
            devs: 0,
            ghost: BTreeMap::new(),
            notes: BTreeMap::new(),
            deployed: BTreeMap::new(),
        }
    }
    pub fn bal(&self, t: &str, a: &str) -> u128 {
        *self.tok.get(&(t.to_string(), a.to_string())).unwrap_or(&0)
    }
    pub fn set_bal(&mut self, t: &str, a: &str, v: u128) {
        let k = (t.to_string(), a.to_string());
        if v == 0 {
            self.tok.remove(&k);
        } else {
            self.tok.insert(k, v);
        }
    }
    pub fn near_of(&self, a: &str) -> i128 {
        *self.near.get(a).unwrap_or(&0)
    }
    pub fn add_near(&mut self, a: &str, d: i128) {
        *self.near.entry(a.to_string()).or_insert(0) += d;
    }
    pub fn g(&self, k: &str) -> BigInt {
        self.ghost.get(k).cloned().unwrap_or_default()
    }
    pub fn gadd(&mut self, k: &str, d: impl Into<BigInt>) {
        let v = self.g(k) + d.into();
        if v == BigInt::from(0) {
            self.ghost.remove(k);
        } else {
            self.ghost.insert(k.to_string(), v);
        }
    }
    pub fn gset(&mut self, k: &str, d: impl Into<BigInt>) {
        self.ghost.insert(k.to_string(), d.into());
    }
    pub fn quiet(&self) -> bool {
        self.pending.is_empty()
    }

    /// Canonical digest: receipt and data ids are renamed in order of first use.
    pub fn digest(&self) -> u128 {
        let mut hs = [std::collections::hash_map::DefaultHasher::new(), std::collections::hash_map::DefaultHasher::new()];
        hs[1].write_u64(0xabcdef);
        let mut names: BTreeMap<u64, u64> = BTreeMap::new();
        let mut pend = self.pending.clone();
        for r in pend.iter_mut() {
            r.id = 0;
            for d in r.inputs.iter_mut().chain(r.outs.iter_mut()) {
                let n = names.len() as u64;
                *d = *names.entry(*d).or_insert(n);
            }
        }
        let mut data: Vec<(u64, &PResult)> =
            self.data.iter().filter_map(|(k, v)| names.get(k).map(|n| (*n, v))).collect();
        data.sort_by_key(|x| x.0);
        let mut limbo: Vec<(u64, &Vec<(String, u128)>)> =
            self.limbo.iter().filter_map(|(k, v)| names.get(k).map(|n| (*n, v))).collect();
        limbo.sort_by_key(|x| x.0);
        for h in hs.iter_mut() {
            for (k, v) in &self.kv {
                k.hash(h);
                v.digest().hash(h);
            }
            // user NEAR balances are included: checks observe them
            self.near.hash(h);
            self.tok.hash(h);
            self.ts.hash(h);
            self.height.hash(h);
            pend.hash(h);
            data.hash(h);
            limbo.hash(h);
            self.devs.hash(h);
            for (k, v) in &self.ghost {
                k.hash(h);
                v.to_signed_bytes_le().hash(h);
            }
            self.notes.hash(h);
            self.deployed.hash(h);
        }
        ((hs[0].finish() as u128) << 64) | hs[1].finish() as u128
    }

    fn fresh(&mut self) -> u64 {
        self.next += 1;
        self.next
    }

    fn resolve(&mut self, outs: &[u64], r: PResult) {
        for o in outs {
            self.data.insert(*o, r.clone());
        }
    }

    pub fn ready(&self) -> Vec<usize> {
        (0..self.pending.len())
            .filter(|i| self.pending[*i].inputs.iter().all(|d| self.data.contains_key(d)))
            .collect()
    }
}

fn jbytes(v: Value) -> Vec<u8> {
    v.to_string().into_bytes()
}
pub fn ledger(token: &str, args: &Value) -> String {
    format!("{}@{}", token, args["token_id"].as_str().unwrap_or("").trim_start_matches(':'))
}
fn amount_of(args: &Value, k: &str) -> u128 {
    args[k].as_str().and_then(|s| s.parse().ok()).unwrap_or(0)
}

impl Env {
    pub fn new() -> Env {
        Env { codes: BTreeMap::new(), actors: BTreeMap::new(), menus: BTreeMap::new(), library: vec![], max_dev: u32::MAX }
    }

    /// The contract running at an account.
    pub fn code(&self, w: &World, who: &str) -> Option<&Arc<Code>> {
        match w.deployed.get(who) {
            Some(i) => Some(&self.library[*i].1),
            None => self.codes.get(who),
        }
    }

    pub fn view(&self, w: &World, who: &str) -> Viewer {
        self.code(w, who).unwrap().views(&w.kv[who], w.ts, w.height, who, w.near_of(who).max(0) as u128)
    }

    /// A user's transaction: returns after the first receipt ran.
    pub fn submit(
        &self,
        w: &mut World,
        ch: &mut Chooser,
        signer: &str,
        recv: &str,
        method: &str,
        args: Value,
        deposit: u128,
    ) -> (u64, Exec) {
        self.submit_raw(w, ch, signer, recv, method, args.to_string().into_bytes(), deposit)
    }
    pub fn submit_raw(
        &self,
        w: &mut World,
        ch: &mut Chooser,
        signer: &str,
        recv: &str,
        method: &str,
        args: Vec<u8>,
        deposit: u128,
    ) -> (u64, Exec) {
        let root = w.fresh();
        let id = w.fresh();
        w.add_near(signer, -(deposit as i128));
        let r = Receipt {
            id,
            pred: signer.into(),
            recv: recv.into(),
            signer: signer.into(),
            actions: vec![Action::Call { method: method.into(), args, deposit, gas: 300_000_000_000_000 }],
            inputs: vec![],
            outs: vec![root],
        };
        let e = self.run_receipt(w, ch, r);
        (root, e)
    }

    pub fn deliver(&self, w: &mut World, ch: &mut Chooser, idx: usize) -> Exec {
        let r = w.pending.remove(idx);
        self.run_receipt(w, ch, r)
    }

    /// Runs every pending receipt, oldest first.
    pub fn settle(&self, w: &mut World, ch: &mut Chooser, execs: &mut Vec<Exec>) {
        let mut n = 0;
        while let Some(i) = w.ready().first().cloned() {
            execs.push(self.deliver(w, ch, i));
            n += 1;
            assert!(n < 500, "ENGINE receipts do not settle");
        }
        assert!(w.pending.is_empty(), "ENGINE stuck receipts");
    }

    pub fn cleanup(&self, w: &mut World) {
        if w.pending.is_empty() {
            w.data.clear();
            w.limbo.clear();
            w.next = 1;
        }
    }

    fn run_receipt(&self, w: &mut World, ch: &mut Chooser, r: Receipt) -> Exec {
        let results: Vec<PResult> = r.inputs.iter().map(|d| w.data.remove(d).unwrap()).collect();
        let dep = r.deposit();
        let (mut method, mut args) = ("transfer".to_string(), String::new());
        if let Some(Action::Call { method: m, args: a, .. }) = r.actions.last() {
            method = m.clone();
            args = String::from_utf8_lossy(a).to_string();
        }
        let mut ex = Exec {
            pred: r.pred.clone(),
            recv: r.recv.clone(),
            method,
            ok: true,
            err: String::new(),
            logs: vec![],
            args,
            deposit: dep,
            ret: None,
            inputs: results.iter().map(|r| matches!(r, PResult::Ok(_))).collect(),
            vals: results.iter().map(|r| if let PResult::Ok(v) = r { Some(v.clone()) } else { None }).collect(),
        };
        // all actions of the receipt are atomic
        let mut t = w.clone();
        let mut last: Option<(Ret, Vec<PNode>)> = None;
        let mut queue: Vec<Receipt> = vec![];
        let mut limbo_outs: Vec<(String, u128)> = vec![];
        let mut failed: Option<String> = None;
        for a in &r.actions {
            last = None;
            match a {
                Action::Transfer { amount } => t.add_near(&r.recv, *amount as i128),
                Action::Deploy(code) => {
                    // contract binaries travel as their name in the library
                    let at = self.codes.keys().find(|k| **k == &r.recv[..]);
                    match (at, self.library.iter().position(|l| l.0.as_bytes() == &code[..])) {
                        (Some(at), Some(i)) if r.pred == r.recv => {
                            t.deployed.insert(at, i);
                        }
                        _ => {
                            failed = Some("not a contract".into());
                            break;
                        }
                    }
                }
                Action::Other(x) => {
                    failed = Some(format!("unsupported action {}", x));
                    break;
                }
                Action::Call { method, args, deposit, .. } => {
                    t.add_near(&r.recv, *deposit as i128);
                    if let Some(code) = self.code(&t, &r.recv) {
                        let bal = t.near_of(&r.recv);
                        let ctx = Ctx {
                            current: r.recv.clone(),
                            signer: r.signer.clone(),
                            predecessor: r.pred.clone(),
                            deposit: *deposit,
                            balance: bal.max(0) as u128,
                            ts: t.ts,
                            height: t.height,
                            results: results.clone(),
                            view: false,
                        };
                        match code.call(&t.kv[code.name], &ctx, method, args) {
                            Err(e) => {
                                failed = Some(e);
                                break;
                            }
                            Ok(d) => {
                                t.kv.insert(code.name, d.kv);
                                ex.logs.extend(d.logs);
                                if let Ret::Value(v) = &d.ret {
                                    ex.ret = Some(v.clone());
                                }
                                let spent: u128 = d
                                    .promises
                                    .iter()
                                    .map(|p| match p {
                                        PNode::Batch { actions, .. } => actions
                                            .iter()
                                            .map(|a| match a {
                                                Action::Call { deposit, .. } => *deposit,
                                                Action::Transfer { amount } => *amount,
                                                _ => 0,
                                            })
                                            .sum(),
                                        _ => 0,
                                    })
                                    .sum();
                                t.add_near(&r.recv, -(spent as i128));
                                if t.near_of(&r.recv) < 0 {
                                    failed = Some("NotEnoughBalance".into());
                                    break;
                                }
                                last = Some((d.ret, d.promises));
                            }
                        }
                    } else {
                        match self.native(&mut t, ch, &r, method, args, *deposit, &results) {
                            Err(e) => {
                                failed = Some(e);
                                break;
                            }
                            Ok((ret, proms)) => {
                                if let Ret::Value(v) = &ret {
                                    ex.ret = Some(v.clone());
                                }
                                last = Some((ret, proms));
                            }
                        }
                    }
                    if let Some((ret, proms)) = last.take() {
                        let (q, fwd) = self.schedule(&mut t, &r, &ret, &proms);
                        queue.extend(q);
                        last = Some((ret, vec![]));
                        if fwd {
                            last = Some((Ret::Promise(0), vec![]));
                        }
                    }
                }
            }
        }
        // an unused part of a token transfer-call sits with the receiver until it is resolved
        if let Some(e) = failed {
            // the failed answer of an outgoing transfer is a claim until its callback runs
            limbo_outs.extend(self.limbo_of_failure(&r));
            let devs = t.devs;
            w.devs = devs;
            w.add_near(&r.pred, dep as i128);
            ex.ok = false;
            ex.err = e;
            w.resolve(&r.outs, PResult::Failed);
            for d in &r.inputs {
                w.limbo.remove(d);
            }
            if !limbo_outs.is_empty() {
                if let Some(o) = r.outs.first() {
                    w.limbo.insert(*o, limbo_outs);
                }
            }
            return ex;
        }
        *w = t;
        for d in &r.inputs {
            w.limbo.remove(d);
        }
        let mut forwarded = false;
        match &last {
            Some((Ret::Value(v), _)) => w.resolve(&r.outs, PResult::Ok(v.clone())),
            Some((Ret::Promise(_), _)) => forwarded = true,
            _ => w.resolve(&r.outs, PResult::Ok(vec![])),
        }
        if !forwarded {
            if let Some((Ret::Value(v), _)) = &last {
                let l = self.limbo_of_unused(&r, v);
                if !l.is_empty() {
                    if let Some(o) = r.outs.first() {
                        w.limbo.insert(*o, l);
                    }
                }
            }
        }
        w.pending.extend(queue);
        ex
    }

    fn is_token(&self, a: &str) -> bool {
        matches!(self.actors.get(a), Some(Actor::Token { .. }) | Some(Actor::Wnear { .. }) | Some(Actor::Mft { .. }))
    }
    /// The ledger a token call is about.
    fn ledger(&self, token: &str, args: &Value) -> String {
        match self.actors.get(token) {
            Some(Actor::Mft { .. }) => ledger(token, args),
            _ => token.to_string(),
        }
    }

    /// An outgoing ft_transfer that failed: its amount is still in the sender's custody and owed.
    fn limbo_of_failure(&self, r: &Receipt) -> Vec<(String, u128)> {
        if let Some(Action::Call { method, args, .. }) = r.actions.last() {
            let v: Value = serde_json::from_slice(args).unwrap_or(Value::Null);
            if self.is_token(&r.recv) && self.codes.contains_key(&r.pred[..]) {
                if ["ft_transfer", "near_withdraw", "ft_transfer_call", "mft_transfer", "mft_transfer_call"].contains(&&method[..]) {
                    return vec![(self.ledger(&r.recv, &v), amount_of(&v, "amount"))];
                }
            }
            // a failed ft_on_transfer: everything goes back
            if self.is_token(&r.pred) && (method == "ft_on_transfer" || method == "mft_on_transfer") && self.codes.contains_key(&r.recv[..]) {
                return vec![(self.ledger(&r.pred, &v), amount_of(&v, "amount"))];
            }
        }
        vec![]
    }
    fn limbo_of_unused(&self, r: &Receipt, ret: &[u8]) -> Vec<(String, u128)> {
        if let Some(Action::Call { method, args, .. }) = r.actions.last() {
            if self.is_token(&r.recv) && method == "ft_resolve_transfer" {
                // what came back to a contract that sent it with a message
                let v: Value = serde_json::from_slice(args).unwrap_or(Value::Null);
                let from = v["sender_id"].as_str().unwrap_or("");
                if self.codes.contains_key(from) {
                    let used = serde_json::from_slice::<Value>(ret).ok().and_then(|x| x.as_str().and_then(|s| s.parse::<u128>().ok())).unwrap_or(0);
                    let back = amount_of(&v, "amount").saturating_sub(used);
                    if back > 0 {
                        return vec![(r.recv.clone(), back)];
                    }
                }
                return vec![];
            }
            if self.is_token(&r.pred) && (method == "ft_on_transfer" || method == "mft_on_transfer") && self.codes.contains_key(&r.recv[..]) {
                let v: Value = serde_json::from_slice(args).unwrap_or(Value::Null);
                let unused = match serde_json::from_slice::<Value>(ret) {
                    Ok(Value::String(s)) => s.parse::<u128>().unwrap_or(u128::MAX),
                    _ => u128::MAX,
                };
                let a = amount_of(&v, "amount").min(unused);
                if a > 0 {
                    return vec![(self.ledger(&r.pred, &v), a)];
                }
            }
        }
        vec![]
    }

    /// Turns the promises of one call into receipts. Returns whether the result is forwarded.
    fn schedule(&self, t: &mut World, r: &Receipt, ret: &Ret, proms: &[PNode]) -> (Vec<Receipt>, bool) {
        let mut recs: Vec<Option<Receipt>> = vec![];
        for p in proms {
            match p {
                PNode::And(_) => recs.push(None),
                PNode::Batch { receiver, actions, .. } => {
                    let id = t.fresh();
                    recs.push(Some(Receipt {
                        id,
                        pred: r.recv.clone(),
                        recv: receiver.clone(),
                        signer: r.signer.clone(),
                        actions: actions.clone(),
                        inputs: vec![],
                        outs: vec![],
                    }))
                }
            }
        }
        fn leaves(proms: &[PNode], i: usize, out: &mut Vec<usize>) {
            match &proms[i] {
                PNode::And(v) => v.iter().for_each(|j| leaves(proms, *j, out)),
                _ => out.push(i),
            }
        }
        for (i, p) in proms.iter().enumerate() {
            if let PNode::Batch { after: Some(j), .. } = p {
                let mut l = vec![];
                leaves(proms, *j, &mut l);
                for k in l {
                    let d = t.fresh();
                    recs[k].as_mut().unwrap().outs.push(d);
                    recs[i].as_mut().unwrap().inputs.push(d);
                }
            }
        }
        let mut fwd = false;
        if let Ret::Promise(j) = ret {
            if let Some(Some(x)) = recs.get_mut(*j) {
                x.outs.extend(r.outs.iter().cloned());
                fwd = true;
            }
        }
        (recs.into_iter().flatten().collect(), fwd)
    }

    fn choose(&self, t: &mut World, ch: &mut Chooser, n: usize) -> usize {
        if n <= 1 || t.devs >= self.max_dev {
            return 0;
        }
        let c = ch.pick(n);
        if c > 0 && self.max_dev != u32::MAX {
            t.devs += 1;
        }
        c
    }

    fn native(
        &self,
        t: &mut World,
        ch: &mut Chooser,
        r: &Receipt,
        method: &str,
        args: &[u8],
        deposit: u128,
        results: &[PResult],
    ) -> Result<(Ret, Vec<PNode>), String> {
        let v: Value = serde_json::from_slice(args).unwrap_or(Value::Null);
        let me = &r.recv[..];
        let listed = self.menus.get(me).and_then(|ms| ms.iter().find(|m| m.0 == method));
        let listed = listed.or_else(|| match self.actors.get(me) {
            Some(Actor::Menu(ms)) => ms.iter().find(|m| m.0 == method),
            _ => None,
        });
        if let Some((_, reps)) = listed {
            let c = self.choose(t, ch, reps.len());
            return match &reps[c] {
                    Reply::Dyn(f) => Ok((Ret::Value(f(t, &v).into_bytes()), vec![])),
                    Reply::Ok(s) => Ok((Ret::Value(s.clone().into_bytes()), vec![])),
                    Reply::Fail => Err("actor refused".into()),
                    Reply::Amount(h, off) => {
                        let a = amount_of(&v, "amount");
                        let x = (a / 2 * h + if *h == 2 { a % 2 } else { 0 }) as i128 + off;
                        Ok((Ret::Value(jbytes(json!(x.max(0).to_string()))), vec![]))
                    }
            };
        }
        match self.actors.get(me) {
            None => Err(format!("no contract at {} for {}", me, method)),
            Some(Actor::Menu(_)) => Err(format!("MethodNotFound {}", method)),
            Some(Actor::Shadow) => {
                let n = amount_of(&v, "amount");
                let k = format!("led.{}.{}.{}", me, v["account_id"].as_str().unwrap_or(""), v["shadow_id"].as_str().unwrap_or(""));
                let cast = match method {
                    "on_cast_shadow" => true,
                    "on_remove_shadow" => false,
                    _ => return Err(format!("MethodNotFound {}", method)),
                };
                if !cast && t.g(&k) < BigInt::from(n) {
                    return Err("shadow: nothing to remove".into());
                }
                if self.choose(t, ch, 2) == 1 {
                    return Err("shadow: refused".into());
                }
                t.gadd(&k, if cast { BigInt::from(n) } else { -BigInt::from(n) });
                Ok((Ret::None, vec![]))
            }
            Some(Actor::Mft { fail }) => self.mft(t, ch, r, method, &v, deposit, results, *fail),
            Some(a) => {
                let (fail, wnear) = match a {
                    Actor::Token { fail } => (*fail, false),
                    Actor::Wnear { fail } => (*fail, true),
                    _ => unreachable!(),
                };
                let mv = |t: &mut World, from: &str, to: &str, n: u128| -> Result<(), String> {
                    let b = t.bal(me, from);
                    if b < n {
                        return Err(format!("token: balance {} < {}", b, n));
                    }
                    t.set_bal(me, from, b - n);
                    let c = t.bal(me, to);
                    t.set_bal(me, to, c + n);
                    Ok(())
                };
                match method {
                    "ft_transfer" => {
                        let (to, n) = (v["receiver_id"].as_str().unwrap_or("").to_string(), amount_of(&v, "amount"));
                        if deposit != 1 {
                            return Err("token: requires one yocto".into());
                        }
                        if n == 0 {
                            return Err("token: zero amount".into());
                        }
                        if fail && self.choose(t, ch, 2) == 1 {
                            return Err("token: receiver not registered".into());
                        }
                        mv(t, &r.pred, &to, n)?;
                        Ok((Ret::None, vec![]))
                    }
                    "ft_transfer_call" => {
                        let (to, n) = (v["receiver_id"].as_str().unwrap_or("").to_string(), amount_of(&v, "amount"));
                        if deposit != 1 {
                            return Err("token: requires one yocto".into());
                        }
                        if n == 0 {
                            return Err("token: zero amount".into());
                        }
                        if fail && self.codes.contains_key(&r.pred[..]) && self.choose(t, ch, 2) == 1 {
                            return Err("token: receiver not registered".into());
                        }
                        mv(t, &r.pred, &to, n)?;
                        let a = Action::Call {
                            method: "ft_on_transfer".into(),
                            args: jbytes(json!({"sender_id": r.pred, "amount": n.to_string(), "msg": v["msg"]})),
                            deposit: 0,
                            gas: 0,
                        };
                        let b = Action::Call {
                            method: "ft_resolve_transfer".into(),
                            args: jbytes(json!({"sender_id": r.pred, "receiver_id": to, "amount": n.to_string()})),
                            deposit: 0,
                            gas: 0,
                        };
                        Ok((
                            Ret::Promise(1),
                            vec![
                                PNode::Batch { receiver: to, after: None, actions: vec![a] },
                                PNode::Batch { receiver: me.to_string(), after: Some(0), actions: vec![b] },
                            ],
                        ))
                    }
                    "ft_resolve_transfer" => {
                        if r.pred != me {
                            return Err("private".into());
                        }
                        let n = amount_of(&v, "amount");
                        let to = v["receiver_id"].as_str().unwrap_or("").to_string();
                        let from = v["sender_id"].as_str().unwrap_or("").to_string();
                        let unused = match &results[0] {
                            PResult::Ok(b) => match serde_json::from_slice::<Value>(b) {
                                Ok(Value::String(s)) => s.parse::<u128>().unwrap_or(n).min(n),
                                _ => n,
                            },
                            PResult::Failed => n,
                        };
                        let back = unused.min(t.bal(me, &to));
                        if back > 0 {
                            mv(t, &to, &from, back)?;
                        }
                        if back < unused {
                            // the receiver spent what it said it did not use
                            t.gadd(&format!("shortfall.{}", to), unused - back);
                        }
                        Ok((Ret::Value(jbytes(json!((n - back).to_string()))), vec![]))
                    }
                    "near_withdraw" if wnear => {
                        let n = amount_of(&v, "amount");
                        if deposit != 1 {
                            return Err("wnear: requires one yocto".into());
                        }
                        if fail && self.choose(t, ch, 2) == 1 {
                            return Err("wnear: refused".into());
                        }
                        let b = t.bal(me, &r.pred);
                        if b < n {
                            return Err("wnear: balance".into());
                        }
                        t.set_bal(me, &r.pred, b - n);
                        let a = Action::Transfer { amount: n };
                        t.add_near(me, n as i128);
                        t.add_near(me, -(n as i128));
                        // the unwrapped NEAR travels as a transfer, like the real contract's promise
                        Ok((Ret::Promise(0), vec![PNode::Batch { receiver: r.pred.clone(), after: None, actions: vec![a] }]))
                    }
                    _ => Err(format!("token: MethodNotFound {}", method)),
                }
            }
        }
    }

    fn mft(
        &self,
        t: &mut World,
        ch: &mut Chooser,
        r: &Receipt,
        method: &str,
        v: &Value,
        deposit: u128,
        results: &[PResult],
        fail: bool,
    ) -> Result<(Ret, Vec<PNode>), String> {
        let me = r.recv.clone();
        let led = ledger(&me, v);
        let n = amount_of(v, "amount");
        let to = v["receiver_id"].as_str().unwrap_or("").to_string();
        let mv = |t: &mut World, from: &str, to: &str, n: u128| -> Result<(), String> {
            let b = t.bal(&led, from);
            if b < n {
                return Err(format!("mft: balance {} < {}", b, n));
            }
            t.set_bal(&led, from, b - n);
            let c = t.bal(&led, to);
            t.set_bal(&led, to, c + n);
            Ok(())
        };
        match method {
            "mft_transfer" | "mft_transfer_call" => {
                if deposit != 1 {
                    return Err("mft: requires one yocto".into());
                }
                if n == 0 {
                    return Err("mft: zero amount".into());
                }
                if fail && self.codes.contains_key(&r.pred[..]) && self.choose(t, ch, 2) == 1 {
                    return Err("mft: receiver not registered".into());
                }
                mv(t, &r.pred, &to, n)?;
                if method == "mft_transfer" {
                    return Ok((Ret::None, vec![]));
                }
                let call = |m: &str, args: Value| vec![Action::Call { method: m.into(), args: jbytes(args), deposit: 0, gas: 0 }];
                Ok((
                    Ret::Promise(1),
                    vec![
                        PNode::Batch {
                            receiver: to.clone(),
                            after: None,
                            actions: call("mft_on_transfer", json!({"token_id": v["token_id"], "sender_id": r.pred, "amount": n.to_string(), "msg": v["msg"]})),
                        },
                        PNode::Batch {
                            receiver: me.clone(),
                            after: Some(0),
                            actions: call("mft_resolve_transfer", json!({"token_id": v["token_id"], "sender_id": r.pred, "receiver_id": to, "amount": n.to_string()})),
                        },
                    ],
                ))
            }
            "mft_resolve_transfer" => {
                if r.pred != me {
                    return Err("private".into());
                }
                let from = v["sender_id"].as_str().unwrap_or("").to_string();
                let unused = match &results[0] {
                    PResult::Ok(b) => match serde_json::from_slice::<Value>(b) {
                        Ok(Value::String(s)) => s.parse::<u128>().unwrap_or(n).min(n),
                        _ => n,
                    },
                    PResult::Failed => n,
                };
                let back = unused.min(t.bal(&led, &to));
                if back > 0 {
                    mv(t, &to, &from, back)?;
                }
                if back < unused {
                    t.gadd(&format!("shortfall.{}", to), unused - back);
                }
                Ok((Ret::Value(jbytes(json!((n - back).to_string()))), vec![]))
            }
            _ => Err(format!("mft: MethodNotFound {}", method)),
        }
    }
}
