//! A small NEAR virtual machine: runs the real contract binary (wasm, built from /repo's working
//! tree) one call at a time against an explicit storage map, and returns what the call did:
//! new storage, returned value, logs, and the promises it created.  Nothing is shared between
//! calls (a fresh wasm instance each time), so a call is a pure function of its inputs.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use wasmer::{Exports, Function, ImportObject, Instance, Memory, Module, RuntimeError, Store, JIT};

pub type Bytes = Arc<[u8]>;
pub type Map = BTreeMap<Bytes, Bytes>;

/// Contract storage with its byte count (NEAR accounting: key + value + 40 per record).
#[derive(Clone)]
pub struct Kv {
    pub map: Arc<Map>,
    pub usage: u64,
    hash: u128,
}

fn mix(k: &[u8], v: &[u8]) -> u128 {
    use std::hash::Hasher;
    let mut a = std::collections::hash_map::DefaultHasher::new();
    a.write_u64(k.len() as u64);
    a.write(k);
    a.write(v);
    let x = a.finish();
    let mut b = std::collections::hash_map::DefaultHasher::new();
    b.write_u64(x ^ 0x9e3779b97f4a7c15);
    b.write(v);
    b.write_u8(7);
    b.write(k);
    ((x as u128) << 64) | b.finish() as u128
}

pub const BASE_USAGE: u64 = 1_500_000;

impl Kv {
    pub fn new() -> Kv {
        Kv { map: Arc::new(Map::new()), usage: BASE_USAGE, hash: 0 }
    }
    /// Order-independent digest of the content.
    pub fn digest(&self) -> u128 {
        self.hash
    }
    pub fn set(&mut self, k: &[u8], v: &[u8]) -> Option<Bytes> {
        let m = Arc::make_mut(&mut self.map);
        let old = m.insert(k.into(), v.into());
        match &old {
            Some(o) => {
                self.usage = self.usage + v.len() as u64 - o.len() as u64;
                self.hash = self.hash.wrapping_sub(mix(k, o));
            }
            None => self.usage += (k.len() + v.len() + 40) as u64,
        }
        self.hash = self.hash.wrapping_add(mix(k, v));
        old
    }
    pub fn del(&mut self, k: &[u8]) -> Option<Bytes> {
        if !self.map.contains_key(k) {
            return None;
        }
        let m = Arc::make_mut(&mut self.map);
        let old = m.remove(k);
        if let Some(o) = &old {
            self.usage -= (k.len() + o.len() + 40) as u64;
            self.hash = self.hash.wrapping_sub(mix(k, o));
        }
        old
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum PResult {
    Ok(Vec<u8>),
    Failed,
}

#[derive(Clone)]
pub struct Ctx {
    pub current: String,
    pub signer: String,
    pub predecessor: String,
    pub deposit: u128,
    pub balance: u128,
    pub ts: u64,
    pub height: u64,
    pub results: Vec<PResult>,
    pub view: bool,
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum Action {
    Call { method: String, args: Vec<u8>, deposit: u128, gas: u64 },
    Transfer { amount: u128 },
    Deploy(Vec<u8>),
    Other(&'static str),
}

#[derive(Clone, Debug)]
pub enum PNode {
    Batch { receiver: String, after: Option<usize>, actions: Vec<Action> },
    And(Vec<usize>),
}

#[derive(Clone, Debug)]
pub enum Ret {
    Value(Vec<u8>),
    Promise(usize),
    None,
}

pub struct Done {
    pub kv: Kv,
    pub ret: Ret,
    pub logs: Vec<String>,
    pub promises: Vec<PNode>,
}

struct Cs {
    ctx: Ctx,
    input: Vec<u8>,
    kv: Kv,
    regs: HashMap<u64, Vec<u8>>,
    logs: Vec<String>,
    promises: Vec<PNode>,
    ret: Ret,
    panic: Option<String>,
    mem: Option<Memory>,
}

thread_local! {
    static CS: RefCell<Option<Box<Cs>>> = RefCell::new(None);
    static POOL: RefCell<HashMap<usize, Vec<Slot>>> = RefCell::new(HashMap::new());
    static INIT: RefCell<HashMap<usize, Arc<[u8]>>> = RefCell::new(HashMap::new());
    static ENGINES: RefCell<HashMap<usize, (Module, ImportObject)>> = RefCell::new(HashMap::new());
}

#[derive(Debug)]
struct HostStop;
impl std::fmt::Display for HostStop {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "host stop")
    }
}
impl std::error::Error for HostStop {}

fn stop(msg: String) -> ! {
    CS.with(|c| {
        let mut b = c.borrow_mut();
        let cs = b.as_mut().unwrap();
        if cs.panic.is_none() {
            cs.panic = Some(msg);
        }
    });
    unsafe { wasmer::raise_user_trap(Box::new(HostStop)) }
}

/// Runs `f` on the call state; an Err aborts the wasm call.  No borrow or owned value is alive
/// when the trap is raised.
fn with<R>(f: impl FnOnce(&mut Cs) -> Result<R, String>) -> R {
    let r = CS.with(|c| {
        let mut b = c.borrow_mut();
        f(b.as_mut().expect("no call state"))
    });
    match r {
        Ok(v) => v,
        Err(m) => stop(m),
    }
}

impl Cs {
    fn mem(&self, ptr: u64, len: u64) -> Result<&mut [u8], String> {
        let m = self.mem.as_ref().unwrap();
        let data = unsafe { m.data_unchecked_mut() };
        let (p, l) = (ptr as usize, len as usize);
        if p.checked_add(l).map_or(true, |e| e > data.len()) {
            return Err("MemoryAccessViolation".into());
        }
        Ok(&mut data[p..p + l])
    }
    fn get(&self, ptr: u64, len: u64) -> Result<Vec<u8>, String> {
        if len == u64::MAX {
            return self.regs.get(&ptr).cloned().ok_or_else(|| "InvalidRegisterId".to_string());
        }
        Ok(self.mem(ptr, len)?.to_vec())
    }
    fn get_str(&self, ptr: u64, len: u64) -> Result<String, String> {
        String::from_utf8(self.get(ptr, len)?).map_err(|_| "BadUTF8".to_string())
    }
    fn get_u128(&self, ptr: u64) -> Result<u128, String> {
        let mut b = [0u8; 16];
        b.copy_from_slice(self.mem(ptr, 16)?);
        Ok(u128::from_le_bytes(b))
    }
    fn put_u128(&self, ptr: u64, v: u128) -> Result<(), String> {
        self.mem(ptr, 16)?.copy_from_slice(&v.to_le_bytes());
        Ok(())
    }
    fn reg(&mut self, r: u64, v: Vec<u8>) {
        self.regs.insert(r, v);
    }
    fn noview(&self, what: &str) -> Result<(), String> {
        if self.ctx.view {
            Err(format!("ProhibitedInView: {}", what))
        } else {
            Ok(())
        }
    }
    fn batch(&mut self, idx: u64) -> Result<&mut Vec<Action>, String> {
        match self.promises.get_mut(idx as usize) {
            Some(PNode::Batch { actions, .. }) => Ok(actions),
            _ => Err("InvalidPromiseIndex".into()),
        }
    }
}

fn imports(store: &Store) -> ImportObject {
    let mut e = Exports::new();
    macro_rules! h {
        ($name:expr, $f:expr) => {
            e.insert($name, Function::new_native(store, $f));
        };
    }
    h!("read_register", |r: u64, p: u64| {
        with(|c| {
            let v = c.regs.get(&r).cloned().ok_or("InvalidRegisterId".to_string())?;
            c.mem(p, v.len() as u64)?.copy_from_slice(&v);
            Ok(())
        })
    });
    h!("register_len", |r: u64| -> u64 {
        with(|c| Ok(c.regs.get(&r).map(|v| v.len() as u64).unwrap_or(u64::MAX)))
    });
    h!("write_register", |r: u64, l: u64, p: u64| {
        with(|c| {
            let v = c.get(p, l)?;
            c.reg(r, v);
            Ok(())
        })
    });
    h!("current_account_id", |r: u64| with(|c| {
        let v = c.ctx.current.clone().into_bytes();
        Ok(c.reg(r, v))
    }));
    h!("signer_account_id", |r: u64| with(|c| {
        c.noview("signer_account_id")?;
        let v = c.ctx.signer.clone().into_bytes();
        Ok(c.reg(r, v))
    }));
    h!("signer_account_pk", |r: u64| with(|c| {
        c.noview("signer_account_pk")?;
        Ok(c.reg(r, vec![0; 33]))
    }));
    h!("predecessor_account_id", |r: u64| with(|c| {
        c.noview("predecessor_account_id")?;
        let v = c.ctx.predecessor.clone().into_bytes();
        Ok(c.reg(r, v))
    }));
    h!("input", |r: u64| with(|c| {
        let v = c.input.clone();
        Ok(c.reg(r, v))
    }));
    h!("block_index", || -> u64 { with(|c| Ok(c.ctx.height)) });
    h!("block_timestamp", || -> u64 { with(|c| Ok(c.ctx.ts)) });
    h!("epoch_height", || -> u64 { 1 });
    h!("storage_usage", || -> u64 { with(|c| Ok(c.kv.usage)) });
    h!("account_balance", |p: u64| with(|c| c.put_u128(p, c.ctx.balance)));
    h!("account_locked_balance", |p: u64| with(|c| c.put_u128(p, 0)));
    h!("attached_deposit", |p: u64| with(|c| {
        c.noview("attached_deposit")?;
        c.put_u128(p, c.ctx.deposit)
    }));
    h!("prepaid_gas", || -> u64 {
        with(|c| {
            c.noview("prepaid_gas")?;
            Ok(300_000_000_000_000)
        })
    });
    h!("used_gas", || -> u64 {
        with(|c| {
            c.noview("used_gas")?;
            Ok(5_000_000_000_000)
        })
    });
    h!("random_seed", |r: u64| with(|c| Ok(c.reg(r, vec![3; 32]))));
    h!("sha256", |_l: u64, _p: u64, _r: u64| with(|_| -> Result<(), String> { Err("sha256 unsupported".into()) }));
    h!("keccak256", |_l: u64, _p: u64, _r: u64| with(|_| -> Result<(), String> {
        Err("keccak256 unsupported".into())
    }));
    h!("keccak512", |_l: u64, _p: u64, _r: u64| with(|_| -> Result<(), String> {
        Err("keccak512 unsupported".into())
    }));
    h!("value_return", |l: u64, p: u64| with(|c| {
        c.ret = Ret::Value(c.get(p, l)?);
        Ok(())
    }));
    h!("panic", || with(|_| -> Result<(), String> { Err("explicit guest panic".into()) }));
    h!("panic_utf8", |l: u64, p: u64| with(|c| -> Result<(), String> { Err(c.get_str(p, l)?) }));
    h!("log_utf8", |l: u64, p: u64| with(|c| {
        let s = c.get_str(p, l)?;
        c.logs.push(s);
        Ok(())
    }));
    h!("log_utf16", |_l: u64, _p: u64| with(|_| Ok(())));
    h!("promise_create", |al: u64, ap: u64, ml: u64, mp: u64, gl: u64, gp: u64, amt: u64, gas: u64| -> u64 {
        with(|c| {
            c.noview("promise")?;
            let receiver = c.get_str(ap, al)?;
            let a = Action::Call { method: c.get_str(mp, ml)?, args: c.get(gp, gl)?, deposit: c.get_u128(amt)?, gas };
            c.promises.push(PNode::Batch { receiver, after: None, actions: vec![a] });
            Ok(c.promises.len() as u64 - 1)
        })
    });
    h!("promise_then", |i: u64, al: u64, ap: u64, ml: u64, mp: u64, gl: u64, gp: u64, amt: u64, gas: u64| -> u64 {
        with(|c| {
            c.noview("promise")?;
            if i as usize >= c.promises.len() {
                return Err("InvalidPromiseIndex".into());
            }
            let receiver = c.get_str(ap, al)?;
            let a = Action::Call { method: c.get_str(mp, ml)?, args: c.get(gp, gl)?, deposit: c.get_u128(amt)?, gas };
            c.promises.push(PNode::Batch { receiver, after: Some(i as usize), actions: vec![a] });
            Ok(c.promises.len() as u64 - 1)
        })
    });
    h!("promise_and", |p: u64, n: u64| -> u64 {
        with(|c| {
            c.noview("promise")?;
            let b = c.get(p, n * 8)?;
            let v: Vec<usize> = b
                .chunks(8)
                .map(|x| {
                    let mut y = [0u8; 8];
                    y.copy_from_slice(x);
                    u64::from_le_bytes(y) as usize
                })
                .collect();
            if v.iter().any(|x| *x >= c.promises.len()) {
                return Err("InvalidPromiseIndex".into());
            }
            c.promises.push(PNode::And(v));
            Ok(c.promises.len() as u64 - 1)
        })
    });
    h!("promise_batch_create", |al: u64, ap: u64| -> u64 {
        with(|c| {
            c.noview("promise")?;
            let receiver = c.get_str(ap, al)?;
            c.promises.push(PNode::Batch { receiver, after: None, actions: vec![] });
            Ok(c.promises.len() as u64 - 1)
        })
    });
    h!("promise_batch_then", |i: u64, al: u64, ap: u64| -> u64 {
        with(|c| {
            c.noview("promise")?;
            if i as usize >= c.promises.len() {
                return Err("InvalidPromiseIndex".into());
            }
            let receiver = c.get_str(ap, al)?;
            c.promises.push(PNode::Batch { receiver, after: Some(i as usize), actions: vec![] });
            Ok(c.promises.len() as u64 - 1)
        })
    });
    h!("promise_batch_action_function_call", |i: u64, ml: u64, mp: u64, gl: u64, gp: u64, amt: u64, gas: u64| with(|c| {
        let a = Action::Call { method: c.get_str(mp, ml)?, args: c.get(gp, gl)?, deposit: c.get_u128(amt)?, gas };
        c.batch(i)?.push(a);
        Ok(())
    }));
    h!("promise_batch_action_transfer", |i: u64, amt: u64| with(|c| {
        let a = Action::Transfer { amount: c.get_u128(amt)? };
        c.batch(i)?.push(a);
        Ok(())
    }));
    h!("promise_batch_action_create_account", |i: u64| with(|c| Ok(c.batch(i)?.push(Action::Other("create_account")))));
    h!("promise_batch_action_deploy_contract", |i: u64, l: u64, p: u64| with(|c| {
        let code = c.get(p, l)?;
        Ok(c.batch(i)?.push(Action::Deploy(code)))
    }));
    h!("promise_batch_action_stake", |i: u64, _a: u64, _b: u64, _c: u64| with(|c| Ok(c
        .batch(i)?
        .push(Action::Other("stake")))));
    h!("promise_batch_action_add_key_with_full_access", |i: u64, _a: u64, _b: u64, _c: u64| with(|c| Ok(c
        .batch(i)?
        .push(Action::Other("add_key")))));
    h!(
        "promise_batch_action_add_key_with_function_call",
        |i: u64, _a: u64, _b: u64, _c: u64, _d: u64, _e: u64, _f: u64, _g: u64, _h: u64| with(|c| Ok(c
            .batch(i)?
            .push(Action::Other("add_key"))))
    );
    h!("promise_batch_action_delete_key", |i: u64, _a: u64, _b: u64| with(|c| Ok(c
        .batch(i)?
        .push(Action::Other("delete_key")))));
    h!("promise_batch_action_delete_account", |i: u64, _a: u64, _b: u64| with(|c| Ok(c
        .batch(i)?
        .push(Action::Other("delete_account")))));
    h!("promise_results_count", || -> u64 { with(|c| Ok(c.ctx.results.len() as u64)) });
    h!("promise_result", |i: u64, r: u64| -> u64 {
        with(|c| match c.ctx.results.get(i as usize).cloned() {
            None => Err("InvalidPromiseResultIndex".into()),
            Some(PResult::Ok(v)) => {
                c.reg(r, v);
                Ok(1)
            }
            Some(PResult::Failed) => Ok(2),
        })
    });
    h!("promise_return", |i: u64| with(|c| {
        if i as usize >= c.promises.len() {
            return Err("InvalidPromiseIndex".into());
        }
        c.ret = Ret::Promise(i as usize);
        Ok(())
    }));
    h!("storage_write", |kl: u64, kp: u64, vl: u64, vp: u64, r: u64| -> u64 {
        with(|c| {
            c.noview("storage_write")?;
            let (k, v) = (c.get(kp, kl)?, c.get(vp, vl)?);
            match c.kv.set(&k, &v) {
                Some(o) => {
                    c.reg(r, o.to_vec());
                    Ok(1)
                }
                None => Ok(0),
            }
        })
    });
    h!("storage_read", |kl: u64, kp: u64, r: u64| -> u64 {
        with(|c| {
            let k = c.get(kp, kl)?;
            match c.kv.map.get(&k[..]).map(|v| v.to_vec()) {
                Some(o) => {
                    c.reg(r, o);
                    Ok(1)
                }
                None => Ok(0),
            }
        })
    });
    h!("storage_remove", |kl: u64, kp: u64, r: u64| -> u64 {
        with(|c| {
            c.noview("storage_remove")?;
            let k = c.get(kp, kl)?;
            match c.kv.del(&k) {
                Some(o) => {
                    c.reg(r, o.to_vec());
                    Ok(1)
                }
                None => Ok(0),
            }
        })
    });
    h!("storage_has_key", |kl: u64, kp: u64| -> u64 {
        with(|c| {
            let k = c.get(kp, kl)?;
            Ok(c.kv.map.contains_key(&k[..]) as u64)
        })
    });
    h!("validator_stake", |_a: u64, _b: u64, p: u64| with(|c| c.put_u128(p, 0)));
    h!("validator_total_stake", |p: u64| with(|c| c.put_u128(p, 0)));
    let mut o = ImportObject::new();
    o.register("env", e);
    o
}

/// Adds an export of the stack pointer (global 0 of a Rust wasm image) so that an instance that
/// stopped in the middle of a call can be reset. Leaves the image alone if it does not look so.
fn export_sp(b: &[u8]) -> Option<Vec<u8>> {
    fn leb(b: &[u8], i: &mut usize) -> Option<usize> {
        let (mut r, mut s) = (0usize, 0);
        loop {
            let x = *b.get(*i)?;
            *i += 1;
            r |= ((x & 0x7f) as usize) << s;
            if x & 0x80 == 0 {
                return Some(r);
            }
            s += 7;
        }
    }
    fn enc(mut n: usize) -> Vec<u8> {
        let mut v = vec![];
        loop {
            let x = (n & 0x7f) as u8;
            n >>= 7;
            if n == 0 {
                v.push(x);
                return v;
            }
            v.push(x | 0x80);
        }
    }
    let mut out = b.get(..8)?.to_vec();
    let mut i = 8;
    let (mut global_ok, mut done) = (false, false);
    while i < b.len() {
        let id = b[i];
        i += 1;
        let n = leb(b, &mut i)?;
        let body = b.get(i..i + n)?;
        i += n;
        if id == 6 {
            let mut j = 0;
            leb(body, &mut j)?;
            // i32, mutable
            global_ok = body.get(j..j + 2)? == [0x7f, 1];
        }
        if id == 7 {
            let mut j = 0;
            let k = leb(body, &mut j)?;
            let mut nb = enc(k + 1);
            nb.extend(&body[j..]);
            nb.extend(enc(7));
            nb.extend(b"__mc_sp");
            nb.extend(&[3, 0]);
            out.push(7);
            out.extend(enc(nb.len()));
            out.extend(nb);
            done = true;
        } else {
            out.push(id);
            out.extend(enc(n));
            out.extend(body);
        }
    }
    if global_ok && done {
        Some(out)
    } else {
        None
    }
}

/// One contract binary. Each thread compiles it once.
pub struct Code {
    pub name: &'static str,
    id: usize,
    module: Module,
    pub exports: Vec<String>,
}

static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);

impl Code {
    pub fn load(name: &'static str, path: &str) -> Code {
        let bytes = std::fs::read(path).unwrap_or_else(|e| {
            eprintln!("cannot read contract {}: {}", path, e);
            std::process::exit(3)
        });
        let bytes = export_sp(&bytes).unwrap_or(bytes);
        let store = Store::new(&JIT::new(wasmer::Cranelift::default()).engine());
        let module = Module::new(&store, &bytes).unwrap_or_else(|e| {
            eprintln!("cannot compile contract {}: {}", path, e);
            std::process::exit(3)
        });
        let exports = module.exports().functions().map(|f| f.name().to_string()).collect();
        Code { name, id: NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst), module, exports }
    }

    fn instance(&self) -> Instance {
        ENGINES.with(|e| {
            let mut e = e.borrow_mut();
            let (m, i) = e.entry(self.id).or_insert_with(|| {
                let i = imports(self.module.store());
                (self.module.clone(), i)
            });
            Instance::new(m, i).expect("instantiate")
        })
    }

    /// An instance whose memory is exactly as after instantiation. Used instances are reset (their
    /// initial memory is restored; pages grown later are never reached again, because the
    /// allocator's own state is part of what is restored) and instances that trapped are dropped.
    fn take(&self) -> Slot {
        if let Some(s) = POOL.with(|p| p.borrow_mut().get_mut(&self.id).and_then(|v| v.pop())) {
            return s;
        }
        let inst = self.instance();
        let mem = inst.exports.get_memory("memory").expect("memory").clone();
        let all = unsafe { mem.data_unchecked() };
        // the stack comes first in a Rust wasm image and is all zero
        let base = all.iter().position(|b| *b != 0).unwrap_or(0);
        let base = if base >= 1 << 20 { 1 << 20 } else { 0 };
        let init: Arc<[u8]> = INIT.with(|m| {
            m.borrow_mut().entry(self.id).or_insert_with(|| all[base..].into()).clone()
        });
        // resetting after a trap relies on the stack starting where the data does
        if let Ok(g) = inst.exports.get_global("__mc_sp") {
            if g.get() != wasmer::Val::I32(1 << 20) {
                let init: Arc<[u8]> = all.into();
                return Slot { id: self.id, inst, mem, base: 0, init, clean: true, dead: false };
            }
        }
        Slot { id: self.id, inst, mem, base, init, clean: true, dead: false }
    }

    pub fn call(&self, kv: &Kv, ctx: &Ctx, method: &str, args: &[u8]) -> Result<Done, String> {
        let mut slot = self.take();
        run(&mut slot, kv, ctx, method, args)
    }

    /// A batch of view calls on one state, sharing one instance.
    pub fn views(&self, kv: &Kv, ts: u64, height: u64, current: &str, balance: u128) -> Viewer {
        Viewer {
            slot: RefCell::new(self.take()),
            kv: kv.clone(),
            ctx: Ctx {
                current: current.into(),
                signer: "viewer".into(),
                predecessor: "viewer".into(),
                deposit: 0,
                balance,
                ts,
                height,
                results: vec![],
                view: true,
            },
        }
    }
}

struct Slot {
    id: usize,
    inst: Instance,
    mem: Memory,
    base: usize,
    init: Arc<[u8]>,
    clean: bool,
    dead: bool,
}
impl Slot {
    /// Puts the memory back to what it is after instantiation.
    fn reset(&mut self) -> bool {
        if !self.clean {
            match self.inst.exports.get_global("__mc_sp") {
                Ok(g) if self.base == 1 << 20 => {
                    if g.set(wasmer::Val::I32(1 << 20)).is_err() {
                        return false;
                    }
                }
                _ => return false,
            }
        }
        unsafe {
            let d = self.mem.data_unchecked_mut();
            d[self.base..self.base + self.init.len()].copy_from_slice(&self.init);
        }
        self.clean = true;
        true
    }
}
impl Drop for Slot {
    fn drop(&mut self) {
        if self.dead || self.mem.data_size() > 16 << 20 || !self.reset() {
            return;
        }
        let s = Slot {
            id: self.id,
            inst: self.inst.clone(),
            mem: self.mem.clone(),
            base: self.base,
            init: self.init.clone(),
            clean: true,
            dead: false,
        };
        let mut s = Some(s);
        let _ = POOL.try_with(|p| p.borrow_mut().entry(self.id).or_default().push(s.take().unwrap()));
        if let Some(mut s) = s {
            s.dead = true;
        }
    }
}

pub struct Viewer {
    slot: RefCell<Slot>,
    kv: Kv,
    ctx: Ctx,
}

impl Viewer {
    pub fn raw(&self, method: &str, args: &[u8]) -> Result<Vec<u8>, String> {
        let mut slot = self.slot.borrow_mut();
        match run(&mut slot, &self.kv, &self.ctx, method, args) {
            Ok(Done { ret: Ret::Value(v), .. }) => Ok(v),
            Ok(_) => Ok(vec![]),
            Err(e) => {
                // a view that failed leaves nothing behind for the next
                if !slot.clean && !slot.reset() {
                    panic!("ENGINE cannot reset the contract after a failed view");
                }
                Err(e)
            }
        }
    }
    pub fn try_get(&self, method: &str, args: serde_json::Value) -> Result<serde_json::Value, String> {
        let r = self.raw(method, args.to_string().as_bytes())?;
        serde_json::from_slice(&r).map_err(|e| format!("{}: bad json {}", method, e))
    }
    /// A view the harness relies on: failing is an engine error unless the caller handles it.
    pub fn get(&self, method: &str, args: serde_json::Value) -> serde_json::Value {
        match self.try_get(method, args.clone()) {
            Ok(v) => v,
            Err(e) => panic!("VIEW_FAILED {}({}) -> {}", method, args, e),
        }
    }
}

fn run(slot: &mut Slot, kv: &Kv, ctx: &Ctx, method: &str, args: &[u8]) -> Result<Done, String> {
    let f = match slot.inst.exports.get_function(method) {
        Ok(f) => f.clone(),
        Err(_) => return Err(format!("MethodNotFound: {}", method)),
    };
    let mem = slot.mem.clone();
    CS.with(|c| {
        *c.borrow_mut() = Some(Box::new(Cs {
            ctx: ctx.clone(),
            input: args.to_vec(),
            kv: kv.clone(),
            regs: HashMap::new(),
            logs: vec![],
            promises: vec![],
            ret: Ret::None,
            panic: None,
            mem: Some(mem),
        }))
    });
    let r: Result<_, RuntimeError> = f.call(&[]);
    let cs = CS.with(|c| c.borrow_mut().take()).unwrap();
    match r {
        Ok(_) => Ok(Done { kv: cs.kv, ret: cs.ret, logs: cs.logs, promises: cs.promises }),
        Err(e) => {
            slot.clean = false;
            Err(cs.panic.unwrap_or_else(|| format!("trap: {}", e.message())))
        }
    }
}
