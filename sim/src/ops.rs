//! Concrete, serialisable simulator operations. A run is a list of these; a replay file stores them.

use crate::natives::{Fault, Feed};
use crate::sv::*;
use serde_json::{json, Value};
use soroban_env_host::xdr::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Tx {
    pub to: Addr,
    pub func: String,
    pub args: Vec<ScVal>,
    pub signers: Vec<Addr>,
    pub fault: Fault,
    /// recovery/liveness phase: this operation must succeed
    pub must: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Tx(Tx),
    /// close ledgers: sequence and clock move independently (stalls, slow ledgers, skew)
    Time { ledgers: u32, secs: u64 },
    Price { oracle: Addr, asset: Addr, price: i128, feed: PFeed },
    /// tokens arriving from outside the system
    Give { token: Addr, to: Addr, amount: i128 },
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PFeed {
    Auto,
    /// last update this many seconds ago (negative: publisher clock runs ahead)
    Age(i64),
    Missing,
}

pub fn sc_json(v: &ScVal) -> Value {
    match v {
        ScVal::Address(ScAddress::Contract(h)) => json!({ "addr": Addr(h.0).name() }),
        ScVal::I128(_) => json!({ "i128": as_i128(v).unwrap().to_string() }),
        ScVal::U32(x) => json!({ "u32": x }),
        ScVal::U64(x) => json!({ "u64": x.to_string() }),
        ScVal::Symbol(_) => json!({ "sym": as_sym(v).unwrap() }),
        ScVal::String(s) => json!({ "str": String::from_utf8_lossy(s.as_slice()) }),
        ScVal::Bytes(b) => json!({ "bytes": hex(b.as_slice()) }),
        ScVal::Bool(b) => json!({ "bool": b }),
        ScVal::Vec(Some(x)) => Value::Array(x.iter().map(sc_json).collect()),
        ScVal::Map(Some(m)) => {
            json!({"map": m.iter().map(|e| json!([sc_json(&e.key), sc_json(&e.val)])).collect::<Vec<_>>()})
        }
        x => panic!("unsupported value {:?}", x),
    }
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
pub fn json_sc(v: &Value) -> ScVal {
    if let Some(a) = v.as_array() {
        return vecv(a.iter().map(json_sc).collect());
    }
    let o = v.as_object().expect("value");
    let (k, x) = o.iter().next().expect("value");
    let st = || x.as_str().unwrap_or("");
    match k.as_str() {
        "addr" => addr(&Addr::parse(st()).unwrap()),
        "i128" => i128v(st().parse().unwrap()),
        "u32" => u32v(x.as_u64().unwrap() as u32),
        "u64" => u64v(st().parse().unwrap()),
        "sym" => sym(st()),
        "str" => strv(st()),
        "bytes" => bytesv(&unhex(st())),
        "bool" => ScVal::Bool(x.as_bool().unwrap()),
        "map" => ScVal::Map(Some(ScMap(
            x.as_array()
                .unwrap()
                .iter()
                .map(|e| ScMapEntry {
                    key: json_sc(&e[0]),
                    val: json_sc(&e[1]),
                })
                .collect::<Vec<_>>()
                .try_into()
                .unwrap(),
        ))),
        _ => panic!("unsupported value {k}"),
    }
}

fn fault_json(f: &Fault) -> Value {
    match f {
        Fault::None => Value::Null,
        Fault::Noop => json!({"noop": 0}),
        Fault::TokenTrap(n) => json!({ "token_trap": n }),
        Fault::OracleTrap(n) => json!({ "oracle_trap": n }),
        Fault::Reenter(n, a) => json!({ "reenter": [n, a.name()] }),
        Fault::Budget(x) => json!({ "budget": x }),
        Fault::Down(a) => json!({ "down": a.name() }),
    }
}
fn json_fault(v: &Value) -> Fault {
    let o = match v.as_object() {
        Some(o) => o,
        None => return Fault::None,
    };
    let (k, x) = o.iter().next().unwrap();
    match k.as_str() {
        "noop" => Fault::Noop,
        "token_trap" => Fault::TokenTrap(x.as_u64().unwrap() as u32),
        "oracle_trap" => Fault::OracleTrap(x.as_u64().unwrap() as u32),
        "reenter" => Fault::Reenter(
            x[0].as_u64().unwrap() as u32,
            Addr::parse(x[1].as_str().unwrap()).unwrap(),
        ),
        "budget" => Fault::Budget(x.as_u64().unwrap()),
        "down" => Fault::Down(Addr::parse(x.as_str().unwrap()).unwrap()),
        _ => panic!("fault {k}"),
    }
}

impl Op {
    pub fn to_json(&self) -> Value {
        match self {
            Op::Tx(t) => {
                let mut v = json!({"op": "tx", "to": t.to.name(), "func": t.func,
                    "args": t.args.iter().map(sc_json).collect::<Vec<_>>(),
                    "signers": t.signers.iter().map(|a| a.name()).collect::<Vec<_>>()});
                if t.fault != Fault::None {
                    v["fault"] = fault_json(&t.fault);
                }
                if t.must {
                    v["must"] = json!(true);
                }
                v
            }
            Op::Time { ledgers, secs } => json!({"op": "time", "ledgers": ledgers, "secs": secs}),
            Op::Price { oracle, asset, price, feed } => {
                let f = match feed {
                    PFeed::Auto => json!("auto"),
                    PFeed::Missing => json!("missing"),
                    PFeed::Age(x) => json!(x),
                };
                json!({"op": "price", "oracle": oracle.name(), "asset": asset.name(), "price": price.to_string(), "feed": f})
            }
            Op::Give { token, to, amount } => {
                json!({"op": "give", "token": token.name(), "to": to.name(), "amount": amount.to_string()})
            }
        }
    }
    pub fn from_json(v: &Value) -> Op {
        let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
        let a = |k: &str| Addr::parse(v[k].as_str().unwrap_or("")).unwrap();
        match s("op").as_str() {
            "tx" => Op::Tx(Tx {
                to: a("to"),
                func: s("func"),
                args: v["args"].as_array().unwrap().iter().map(json_sc).collect(),
                signers: v["signers"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|x| Addr::parse(x.as_str().unwrap()).unwrap())
                    .collect(),
                fault: json_fault(&v["fault"]),
                must: v["must"].as_bool().unwrap_or(false),
            }),
            "time" => Op::Time {
                ledgers: v["ledgers"].as_u64().unwrap() as u32,
                secs: v["secs"].as_u64().unwrap(),
            },
            "price" => Op::Price {
                oracle: a("oracle"),
                asset: a("asset"),
                price: s("price").parse().unwrap(),
                feed: match &v["feed"] {
                    Value::String(x) if x == "missing" => PFeed::Missing,
                    Value::Number(n) => PFeed::Age(n.as_i64().unwrap()),
                    _ => PFeed::Auto,
                },
            },
            "give" => Op::Give {
                token: a("token"),
                to: a("to"),
                amount: s("amount").parse().unwrap(),
            },
            x => panic!("op {x}"),
        }
    }
    pub fn feed(f: PFeed, now: u64) -> Feed {
        match f {
            PFeed::Auto => Feed::Auto,
            PFeed::Missing => Feed::Missing,
            PFeed::Age(x) => Feed::Fixed((now as i64 - x).max(0) as u64),
        }
    }
}
