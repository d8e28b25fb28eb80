use crate::explore::Scenario;
use crate::Ctx;
pub type Mk = Vec<(String, Box<dyn Fn() -> Scenario>)>;
pub mod custody;
pub mod shares;
pub mod pricing;
pub mod curves;
pub mod liquidity;
pub mod access;
pub mod flow;
pub mod oracle;
pub mod storage;
pub mod pools;
pub mod time;
pub mod upgrade;
pub mod views;
pub mod farm;
pub mod farm_more;

pub fn mk(cx: &Ctx, name: &str, f: impl Fn(&Ctx) -> Scenario + 'static) -> (String, Box<dyn Fn() -> Scenario>) {
    let cx = cx.clone();
    let n = name.to_string();
    (name.to_string(), Box::new(move || {
        let mut s = f(&cx);
        s.name = n.clone();
        s
    }))
}

const BASE: &[&str] = &[
    "Accounts other than the contract under test behave as the environment menus say (NEP-141 tokens, wrapped NEAR, receivers that may accept, refuse or partly use); gas limits are not modelled.",
];

const SHADOW: &[&str] = &[
    "The farming and lending contracts keep an honest ledger of the shadows cast on them and may refuse any request.",
    BASE[0],
];

pub const ALL: &[(&str, fn(&Ctx) -> Mk, &[&str])] = &[
    ("E01", custody::e01, BASE),
    ("E02", custody::e02, BASE),
    ("E03", custody::e03, BASE),
    ("E04", shares::e04, SHADOW),
    ("E05", pricing::e05, BASE),
    ("E06", liquidity::e06, BASE),
    ("E07", curves::e07, BASE),
    ("E08", liquidity::e08, BASE),
    ("E09", pricing::e09, BASE),
    ("E10", flow::e10, BASE),
    ("E11", access::e11, BASE),
    ("E12", access::e12, BASE),
    ("E13", access::e13, BASE),
    ("E14", storage::e14, SHADOW),
    ("E15", access::e15, BASE),
    ("E16", oracle::e16, BASE),
    ("E17", oracle::e17, BASE),
    ("E18", time::e18, BASE),
    ("E19", time::e19, BASE),
    ("E20", shares::e20, BASE),
    ("E24", pools::e24, BASE),
    ("E25", upgrade::e25, BASE),
    ("E26", pools::e26, BASE),
    ("E27", flow::e27, BASE),
    ("E28", flow::e28, BASE),
    ("E29", access::e29, SHADOW),
    ("F01", farm::f01, BASE),
    ("F02", farm::f02, BASE),
    ("F03", farm::f03, BASE),
    ("F04", farm::f04, BASE),
    ("F05", farm::f05, BASE),
    ("F06", farm_more::f06, BASE),
    ("F07", farm_more::f07, BASE),
    ("F08", farm::f08, BASE),
    ("F09", farm_more::f09, BASE),
    ("E21", liquidity::e21, BASE),
    ("E22", pricing::e22, BASE),
    ("E23", shares::e23, SHADOW),
    ("E30", views::e30, SHADOW),
    ("F10", views::f10, BASE),
];
