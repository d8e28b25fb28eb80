//! Exhaustive breadth-first exploration: every operation of the alphabet in every reachable state
//! up to a depth, every choice of the environment inside an operation, and (in interleaving mode)
//! every order of delivering the receipts in flight.
use crate::chain::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Fail {
    /// Identifies what failed, for the known-findings file.
    pub key: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($key:expr, $($a:tt)*) => { return Err($crate::explore::Fail { key: ($key).to_string(), msg: format!($($a)*) }) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($a:tt)*) => { if !($c) { $crate::fail!($key, $($a)*) } };
}

pub struct X<'a> {
    pub env: &'a Env,
    pub w: World,
    pub ch: &'a mut Chooser,
    pub eager: bool,
    pub log: Vec<Exec>,
    pub skipped: bool,
    pub class: String,
}

impl<'a> X<'a> {
    /// Sends a user's call. Eager: runs it to completion; otherwise only its first receipt.
    pub fn call(&mut self, signer: &str, recv: &str, method: &str, args: Value, deposit: u128) -> Outcome {
        self.call_raw(signer, recv, method, args.to_string().into_bytes(), deposit)
    }
    pub fn call_raw(&mut self, signer: &str, recv: &str, method: &str, args: Vec<u8>, deposit: u128) -> Outcome {
        let mut w = self.w.clone();
        let (root, e) = self.env.submit_raw(&mut w, self.ch, signer, recv, method, args, deposit);
        let mut execs = vec![e.clone()];
        let mut value = None;
        if self.eager {
            self.env.settle(&mut w, self.ch, &mut execs);
            value = w.data.get(&root).cloned();
            self.env.cleanup(&mut w);
        } else {
            w.data.remove(&root);
        }
        self.w = w;
        self.log.extend(execs.clone());
        let late = execs[1..].iter().filter(|e| !e.ok).count();
        self.class = format!("{}{}{}", self.class, if e.ok { "+" } else { "-" }, if late > 0 { format!("f{}", late) } else { String::new() });
        Outcome { ok: e.ok, err: e.err, value, execs }
    }
    pub fn view(&self, who: &str) -> crate::vm::Viewer {
        self.env.view(&self.w, who)
    }
    pub fn skip(&mut self) -> R {
        self.skipped = true;
        Ok(())
    }
    pub fn class(&mut self, c: impl std::fmt::Display) {
        self.class = format!("{}{}", self.class, c);
    }
}

pub struct Op {
    pub label: String,
    pub f: Box<dyn Fn(&mut X) -> R + Send + Sync>,
}
pub fn op(label: impl Into<String>, f: impl Fn(&mut X) -> R + Send + Sync + 'static) -> Op {
    Op { label: label.into(), f: Box::new(f) }
}

pub struct Scenario {
    pub name: String,
    pub env: Env,
    pub init: World,
    pub ops: Vec<Op>,
    pub depth: usize,
    /// Receipts in flight are delivered by explicit steps, in every order.
    pub interleave: bool,
    /// At most this many transactions with receipts in flight at once (interleaving mode).
    pub max_pending: usize,
    pub inv: Box<dyn Fn(&Env, &World) -> R + Send + Sync>,
    /// Judges one transition: state before, state after, what was executed.
    pub step: Box<dyn Fn(&Env, &World, &World, &[Exec]) -> R + Send + Sync>,
}

impl Scenario {
    pub fn new(name: &str, env: Env, init: World) -> Scenario {
        Scenario {
            name: name.into(),
            env,
            init,
            ops: vec![],
            depth: 1,
            interleave: false,
            max_pending: 12,
            inv: Box::new(|_, _| Ok(())),
            step: Box::new(|_, _, _, _| Ok(())),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Step {
    pub op: String,
    pub choices: Vec<u16>,
}

#[derive(Default)]
pub struct Report {
    pub scenario: String,
    pub states: u64,
    pub transitions: u64,
    pub refused: u64,
    pub skipped: u64,
    pub depth: usize,
    pub exhaustive: bool,
    pub capped: Option<String>,
    pub outcomes: BTreeMap<String, u64>,
    pub times: BTreeMap<String, f64>,
    pub samples: Vec<Vec<String>>,
    pub replayed: u64,
    pub known: BTreeMap<String, String>,
    pub violation: Option<(Vec<Step>, Fail, Vec<String>)>,
    pub wall: f64,
}

struct Node {
    parent: u32,
    op: u16,
    choices: Vec<u16>,
}

fn quiet_catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

/// One step: runs an operation (or a delivery) on a state with given choices.
fn run_op<'a>(sc: &'a Scenario, op: usize, w: &World, ch: &'a mut Chooser) -> (X<'a>, R) {
    let mut x = X {
        env: &sc.env,
        w: w.clone(),
        ch,
        eager: !sc.interleave,
        log: vec![],
        skipped: false,
        class: String::new(),
    };
    let nops = sc.ops.len();
    let r = quiet_catch(|| {
        if op < nops {
            if sc.interleave && w.pending.len() > sc.max_pending {
                x.skipped = true;
                return Ok(());
            }
            (sc.ops[op].f)(&mut x)?;
        } else {
            let ready = x.w.ready();
            match ready.get(op - nops) {
                None => x.skipped = true,
                Some(i) => {
                    let mut w = x.w.clone();
                    let e = sc.env.deliver(&mut w, x.ch, *i);
                    sc.env.cleanup(&mut w);
                    x.class = format!("{}{}", e.method, if e.ok { "+" } else { "-" });
                    x.log.push(e);
                    x.w = w;
                }
            }
        }
        if !x.skipped {
            (sc.step)(&sc.env, w, &x.w, &x.log)?;
            (sc.inv)(&sc.env, &x.w)?;
        }
        Ok(())
    });
    let r = match r {
        Ok(r) => r,
        Err(p) if p.starts_with("VIEW_FAILED") => {
            Err(Fail { key: format!("view:{}", p.split('(').next().unwrap_or("").replace("VIEW_FAILED ", "")), msg: p })
        }
        Err(p) => {
            eprintln!("ENGINE ERROR in scenario {} op {}: {}", sc.name, label(sc, op), p);
            std::process::exit(3)
        }
    };
    (x, r)
}

fn label(sc: &Scenario, op: usize) -> String {
    if op < sc.ops.len() {
        sc.ops[op].label.clone()
    } else {
        format!("deliver#{}", op - sc.ops.len())
    }
}

pub struct Limits {
    pub wall: f64,
    pub states: usize,
    pub known: Vec<String>,
}

pub fn explore(sc: &Scenario, lim: &Limits) -> Report {
    let t0 = Instant::now();
    let mut rep = Report { scenario: sc.name.clone(), exhaustive: true, ..Default::default() };
    let nthreads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    let shards: Vec<Mutex<HashSet<u128>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
    let mut nodes: Vec<Node> = vec![Node { parent: 0, op: 0, choices: vec![] }];
    if let Err(f) = (sc.inv)(&sc.env, &sc.init) {
        if lim.known.contains(&f.key) {
            rep.known.insert(f.key, f.msg);
        } else {
            rep.violation = Some((vec![], f, vec![]));
            return rep;
        }
    }
    let d0 = sc.init.digest();
    shards[(d0 % 64) as usize].lock().unwrap().insert(d0);
    let mut frontier: Vec<(World, u32)> = vec![(sc.init.clone(), 0)];
    rep.states = 1;
    // the last steps of the last level that were reached, for the samples
    let mut sample_nodes: Vec<(u32, u16, Vec<u16>, u128)> = vec![];
    for depth in 0..sc.depth {
        if frontier.is_empty() {
            break;
        }
        let last = depth + 1 == sc.depth;
        let idx = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        struct Out {
            next: Vec<(World, u32, u16, Vec<u16>)>,
            lasts: Vec<(u32, u16, Vec<u16>, u128)>,
            states: u64,
            trans: u64,
            refused: u64,
            skipped: u64,
            outcomes: BTreeMap<String, u64>,
            times: BTreeMap<String, f64>,
            viol: Vec<(u32, u16, Vec<u16>, Fail)>,
            known: BTreeMap<String, String>,
            done: usize,
        }
        let fr = &frontier;
        let outs: Vec<Out> = std::thread::scope(|s| {
            let mut hs = vec![];
            for _ in 0..nthreads {
                hs.push(s.spawn(|| {
                    let mut o = Out {
                        next: vec![],
                        lasts: vec![],
                        states: 0,
                        trans: 0,
                        refused: 0,
                        skipped: 0,
                        outcomes: BTreeMap::new(),
                        times: BTreeMap::new(),
                        viol: vec![],
                        known: BTreeMap::new(),
                        done: 0,
                    };
                    loop {
                        let i = idx.fetch_add(1, Ordering::SeqCst);
                        if i >= fr.len() || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let (w, node) = &fr[i];
                        let nops = sc.ops.len() + if sc.interleave { w.ready().len() } else { 0 };
                        for op in 0..nops {
                            let mut stack: Vec<Vec<u16>> = vec![vec![]];
                            while let Some(prefix) = stack.pop() {
                                let mut ch = Chooser::new(prefix);
                                let t1 = Instant::now();
                                let (x, r) = run_op(sc, op, w, &mut ch);
                                let (skipped, class, nw) = (x.skipped, x.class.clone(), x.w);
                                if skipped {
                                    o.skipped += 1;
                                } else {
                                    o.trans += 1;
                                    if class.ends_with('-') {
                                        o.refused += 1;
                                    }
                                    let lab = if op < sc.ops.len() {
                                        format!("{} {}", sc.ops[op].label, class)
                                    } else {
                                        format!("deliver {}", class)
                                    };
                                    *o.times.entry(lab.clone()).or_insert(0.0) += t1.elapsed().as_secs_f64();
                                    *o.outcomes.entry(lab).or_insert(0) += 1;
                                }
                                for j in ch.prefix_len()..ch.trace.len() {
                                    for alt in 1..ch.trace[j].1 {
                                        let mut p: Vec<u16> = ch.trace[..j].iter().map(|t| t.0).collect();
                                        p.push(alt);
                                        stack.push(p);
                                    }
                                }
                                if skipped {
                                    continue;
                                }
                                match r {
                                    Err(f) => {
                                        if lim.known.contains(&f.key) {
                                            o.known.insert(f.key, f.msg);
                                        } else {
                                            o.viol.push((*node, op as u16, ch.choices(), f));
                                            stop.store(true, Ordering::Relaxed);
                                        }
                                    }
                                    Ok(()) => {
                                        let d = nw.digest();
                                        if shards[(d % 64) as usize].lock().unwrap().insert(d) {
                                            o.states += 1;
                                            if last {
                                                if o.lasts.len() < 4 {
                                                    o.lasts.push((*node, op as u16, ch.choices(), d));
                                                }
                                            } else {
                                                o.next.push((nw, *node, op as u16, ch.choices()));
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        o.done += 1;
                        if t0.elapsed().as_secs_f64() > lim.wall {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    o
                }));
            }
            hs.into_iter().map(|h| h.join().expect("ENGINE worker died")).collect()
        });
        let mut next: Vec<(World, u32)> = vec![];
        let mut viols = vec![];
        let mut done = 0;
        for o in outs {
            rep.states += o.states;
            rep.transitions += o.trans;
            rep.refused += o.refused;
            rep.skipped += o.skipped;
            done += o.done;
            for (k, v) in o.outcomes {
                *rep.outcomes.entry(k).or_insert(0) += v;
            }
            for (k, v) in o.times {
                *rep.times.entry(k).or_insert(0.0) += v;
            }
            rep.known.extend(o.known);
            viols.extend(o.viol);
            sample_nodes.extend(o.lasts);
            for (w, p, opi, c) in o.next {
                nodes.push(Node { parent: p, op: opi, choices: c });
                next.push((w, nodes.len() as u32 - 1));
            }
        }
        if !viols.is_empty() {
            let v = viols
                .into_iter()
                .map(|(n, opi, c, f)| {
                    let mut st = path(sc, &nodes, n);
                    st.push(Step { op: label(sc, opi as usize), choices: c });
                    (st, f)
                })
                .min_by_key(|(st, _)| st.iter().map(|s| format!("{}{:?}", s.op, s.choices)).collect::<Vec<_>>())
                .unwrap();
            let (txt, again) = replay(sc, &v.0);
            if again.as_ref().map(|f| &f.key) != Some(&v.1.key) {
                eprintln!("ENGINE ERROR: a violation did not replay: {:?} then {:?} on {:?}", v.1, again, v.0);
                std::process::exit(3);
            }
            rep.violation = Some((v.0, v.1, txt));
            rep.depth = depth + 1;
            rep.exhaustive = false;
            rep.wall = t0.elapsed().as_secs_f64();
            return rep;
        }
        if done < frontier.len() {
            rep.exhaustive = false;
            rep.capped = Some(format!("wall cap {}s inside depth {}: {} of {} states expanded", lim.wall, depth + 1, done, frontier.len()));
            break;
        }
        rep.depth = depth + 1;
        if rep.states as usize > lim.states && !last {
            rep.exhaustive = false;
            rep.capped = Some(format!("state cap {} reached at depth {}", lim.states, depth + 1));
            break;
        }
        frontier = next;
    }
    // samples and determinism: replay some complete traces from the initial state
    sample_nodes.sort_by(|a, b| (a.3).cmp(&b.3));
    let step = (sample_nodes.len() / 12).max(1);
    for (k, (n, opi, c, d)) in sample_nodes.iter().enumerate() {
        if k % step != 0 {
            continue;
        }
        let mut st = path(sc, &nodes, *n);
        st.push(Step { op: label(sc, *opi as usize), choices: c.clone() });
        let w = run_trace(sc, &st);
        if w.map(|w| w.digest()) != Some(*d) {
            eprintln!("ENGINE ERROR: replaying a trace reached a different state: {:?}", st);
            std::process::exit(3);
        }
        rep.replayed += 1;
        if rep.samples.len() < 6 {
            rep.samples.push(st.iter().map(|s| format!("{}{}", s.op, if s.choices.is_empty() { String::new() } else { format!("{:?}", s.choices) })).collect());
        }
    }
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}

fn path(sc: &Scenario, nodes: &[Node], mut n: u32) -> Vec<Step> {
    let mut v = vec![];
    while n != 0 {
        let x = &nodes[n as usize];
        v.push(Step { op: label(sc, x.op as usize), choices: x.choices.clone() });
        n = x.parent;
    }
    v.reverse();
    v
}

fn op_index(sc: &Scenario, l: &str) -> usize {
    if let Some(k) = l.strip_prefix("deliver#") {
        return sc.ops.len() + k.parse::<usize>().unwrap_or(0);
    }
    sc.ops.iter().position(|o| o.label == l).unwrap_or_else(|| {
        eprintln!("unknown operation {} in scenario {}", l, sc.name);
        std::process::exit(3)
    })
}

fn run_trace(sc: &Scenario, st: &[Step]) -> Option<World> {
    let mut w = sc.init.clone();
    for s in st {
        let mut ch = Chooser::new(s.choices.clone());
        let (x, r) = run_op(sc, op_index(sc, &s.op), &w, &mut ch);
        if r.is_err() {
            return None;
        }
        w = x.w;
    }
    Some(w)
}

/// Replays a trace and tells it as text; returns the failure it ends with.
pub fn replay(sc: &Scenario, st: &[Step]) -> (Vec<String>, Option<Fail>) {
    let mut w = sc.init.clone();
    let mut out = vec![];
    if let Err(f) = (sc.inv)(&sc.env, &w) {
        out.push(format!("initial state: {}", f.msg));
        if st.is_empty() {
            return (out, Some(f));
        }
    }
    for (i, s) in st.iter().enumerate() {
        let mut ch = Chooser::new(s.choices.clone());
        let (x, r) = run_op(sc, op_index(sc, &s.op), &w, &mut ch);
        out.push(format!("step {}: {} {:?}", i + 1, s.op, s.choices));
        for e in &x.log {
            out.push(format!(
                "    {} -> {}.{}({}) deposit {} : {}",
                e.pred,
                e.recv,
                e.method,
                e.args.chars().take(400).collect::<String>(),
                e.deposit,
                if e.ok { "ok".to_string() } else { format!("FAILED {}", e.err.chars().take(200).collect::<String>()) }
            ));
        }
        if let Err(f) = r {
            out.push(format!("    => {}: {}", f.key, f.msg));
            return (out, Some(f));
        }
        w = x.w;
    }
    (out, None)
}

impl Report {
    pub fn json(&self) -> Value {
        json!({
            "scenario": self.scenario, "states": self.states, "transitions": self.transitions,
            "refused_transitions": self.refused, "depth": self.depth, "exhaustive": self.exhaustive,
            "capped": self.capped, "distinct_outcomes": self.outcomes.len(), "traces_replayed": self.replayed,
            "wall_s": (self.wall * 100.0).round() / 100.0,
        })
    }
}
