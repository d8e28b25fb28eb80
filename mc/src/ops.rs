//! Operations shared by the scenarios.
use crate::chain::*;
use crate::exh::*;
use crate::explore::*;
use serde_json::{json, Value};

/// A plain call with fixed arguments.
pub fn tx(signer: &'static str, recv: &'static str, method: &'static str, args: Value, deposit: u128) -> Op {
    let l = format!("{} {} {} {}", short(signer), method, args, if deposit > 1 { format!("+{}", deposit) } else { String::new() });
    op(l, move |x| {
        x.call(signer, recv, method, args.clone(), deposit);
        Ok(())
    })
}
pub fn txn(name: &str, signer: &'static str, recv: &'static str, method: &'static str, args: Value, deposit: u128) -> Op {
    op(name, move |x| {
        x.call(signer, recv, method, args.clone(), deposit);
        Ok(())
    })
}
pub fn short(a: &str) -> &str {
    a.split('.').next().unwrap()
}

pub fn ft_call(name: &str, who: &'static str, tok: &'static str, n: u128, msg: Value) -> Op {
    let m = match &msg {
        Value::String(s) => s.clone(),
        v => v.to_string(),
    };
    op(name, move |x| {
        if x.w.bal(tok, who) < n {
            return x.skip();
        }
        x.call(who, tok, "ft_transfer_call", json!({"receiver_id": EX, "amount": n.to_string(), "msg": m}), 1);
        Ok(())
    })
}
pub fn deposit_op(who: &'static str, tok: &'static str, n: u128) -> Op {
    ft_call(&format!("{} deposits {} {}", short(who), n, short(tok)), who, tok, n, json!(""))
}
pub fn withdraw_op(who: &'static str, tok: &'static str, n: u128, unreg: bool, unwrap: bool) -> Op {
    tx(
        who,
        EX,
        "withdraw",
        json!({"token_id": tok, "amount": n.to_string(), "unregister": unreg, "skip_unwrap_near": !unwrap}),
        1,
    )
}
pub fn act(pool: u64, tin: &str, tout: &str, amt: Option<u128>, min: u128) -> Value {
    let mut v = json!({"pool_id": pool, "token_in": tin, "token_out": tout, "min_amount_out": min.to_string()});
    if let Some(a) = amt {
        v["amount_in"] = json!(a.to_string());
    }
    v
}
pub fn act_out(pool: u64, tin: &str, tout: &str, amt: Option<u128>, max: Option<u128>) -> Value {
    let mut v = json!({"pool_id": pool, "token_in": tin, "token_out": tout});
    if let Some(a) = amt {
        v["amount_out"] = json!(a.to_string());
    }
    if let Some(a) = max {
        v["max_amount_in"] = json!(a.to_string());
    }
    v
}
