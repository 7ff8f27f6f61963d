//! Harness contracts that run natively inside the simulated host: SEP-41 token with fault injection,
//! SEP-40 oracle under simulator control, and a trap used to take a dependency down for one transaction.
//! Token balances live in the simulated ledger, so host rollback applies to them exactly as to real tokens.

use crate::exec::HostExt;
use crate::sv::*;
use soroban_env_host::xdr::ScVal;
use soroban_env_host::{ContractFunctionSet, Env, Host, StorageType, Symbol, TryFromVal, Val, VecObject};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub contract: Addr,
    pub func: String,
    pub from: Option<Addr>,
    pub to: Option<Addr>,
    pub amount: i128,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    /// the nth (0-based) token call of the transaction traps (frozen trustline, clawback, failing issuer)
    TokenTrap(u32),
    /// the nth oracle read traps
    OracleTrap(u32),
    /// the nth token call attempts to re-enter this contract before completing
    Reenter(u32, Addr),
    /// transaction's cpu budget is cut at this instruction count
    Budget(u64),
    /// the contract at this address traps on every call in this transaction
    Down(Addr),
    /// token calls of this transaction record reads as slow; no effect on semantics
    Noop,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Feed {
    /// republished every five minutes
    Auto,
    /// the publisher stopped at this timestamp
    Fixed(u64),
    Missing,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Price {
    pub price: i128,
    pub feed: Feed,
}
impl Price {
    pub fn ts(&self, now: u64) -> Option<u64> {
        match self.feed {
            Feed::Auto => Some(now - now % 300),
            Feed::Fixed(t) => Some(t),
            Feed::Missing => None,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct OracleSt {
    pub decimals: u32,
    pub prices: BTreeMap<Addr, Price>,
}

#[derive(Clone)]
pub struct NativeEnv {
    pub oracles: BTreeMap<Addr, OracleSt>,
    pub fault: Fault,
    pub fault_fired: bool,
    pub tok_n: u32,
    pub ora_n: u32,
    pub trace: Vec<Call>,
    pub decimals: BTreeMap<Addr, u32>,
    pub admins: BTreeMap<Addr, Addr>,
}

impl NativeEnv {
    pub fn begin(&mut self) {
        self.fault_fired = false;
        self.tok_n = 0;
        self.ora_n = 0;
        self.trace.clear();
    }
}

#[derive(Clone, Default)]
pub struct Natives {
    pub list: Vec<(Addr, Rc<dyn ContractFunctionSet>)>,
}

pub struct Token {
    pub id: Addr,
    pub env: Rc<RefCell<NativeEnv>>,
}
pub struct Oracle {
    pub id: Addr,
    pub env: Rc<RefCell<NativeEnv>>,
}
pub struct Trap {
    pub env: Rc<RefCell<NativeEnv>>,
}

fn sc(host: &Host, v: Val) -> ScVal {
    ScVal::try_from_val(host, &v).expect("scval")
}
fn val(host: &Host, v: &ScVal) -> Val {
    Val::try_from_val(host, v).expect("val")
}

pub fn bal_key(a: &Addr) -> ScVal {
    enumv("Balance", vec![addr(a)])
}
pub fn allow_key(from: &Addr, spender: &Addr) -> ScVal {
    enumv("Allowance", vec![addr(from), addr(spender)])
}

impl Token {
    fn get(&self, host: &Host, key: &ScVal) -> Option<ScVal> {
        let k = val(host, key);
        let has: bool = host
            .has_contract_data(k, StorageType::Persistent)
            .expect("has")
            .into();
        if !has {
            return None;
        }
        Some(sc(host, host.get_contract_data(k, StorageType::Persistent).expect("get")))
    }
    fn put(&self, host: &Host, key: &ScVal, v: &ScVal) {
        host.put_contract_data(val(host, key), val(host, v), StorageType::Persistent)
            .expect("put");
    }
    fn bal(&self, host: &Host, a: &Addr) -> i128 {
        self.get(host, &bal_key(a)).and_then(|v| as_i128(&v)).unwrap_or(0)
    }
    fn set_bal(&self, host: &Host, a: &Addr, x: i128) {
        self.put(host, &bal_key(a), &i128v(x));
    }
    fn auth(&self, host: &Host, a: &Addr) {
        host.require_auth(host.add_addr(a)).expect("auth");
    }
    fn mv(&self, host: &Host, from: &Addr, to: &Addr, amt: i128) {
        assert!(amt >= 0, "negative amount");
        let fb = self.bal(host, from);
        assert!(fb >= amt, "insufficient balance");
        self.set_bal(host, from, fb - amt);
        let tb = self.bal(host, to);
        self.set_bal(host, to, tb.checked_add(amt).expect("overflow"));
    }
    fn log(&self, func: &str, from: Option<Addr>, to: Option<Addr>, amount: i128) {
        self.env.borrow_mut().trace.push(Call {
            contract: self.id,
            func: func.to_string(),
            from,
            to,
            amount,
        });
    }
    /// state-changing calls pass through here; this is where the simulator injects its faults
    fn gate(&self, host: &Host) {
        let (n, f) = {
            let mut e = self.env.borrow_mut();
            let n = e.tok_n;
            e.tok_n += 1;
            (n, e.fault.clone())
        };
        match f {
            Fault::TokenTrap(k) if k == n => {
                self.env.borrow_mut().fault_fired = true;
                panic!("injected token failure");
            }
            Fault::Reenter(k, target) if k == n => {
                self.env.borrow_mut().fault_fired = true;
                let args: VecObject = host.vec_new().expect("vec");
                let s = Symbol::try_from_val(host, &"update_status").expect("sym");
                // try_call: the host refuses re-entry, and the token carries on
                let _ = host.try_call(host.add_addr(&target), s, args);
            }
            _ => {}
        }
    }
}

impl ContractFunctionSet for Token {
    fn call(&self, func: &Symbol, host: &Host, args: &[Val]) -> Option<Val> {
        let f = as_sym(&sc(host, func.to_val()))?;
        let a: Vec<ScVal> = args.iter().map(|x| sc(host, *x)).collect();
        let ad = |i: usize| as_addr(&a[i]).expect("address");
        let am = |i: usize| as_i128(&a[i]).expect("i128");
        let void = Val::VOID.to_val();
        match f.as_str() {
            "balance" => Some(val(host, &i128v(self.bal(host, &ad(0))))),
            "decimals" => {
                let d = *self.env.borrow().decimals.get(&self.id).unwrap_or(&7);
                Some(val(host, &u32v(d)))
            }
            "name" => Some(val(host, &strv(&self.id.name()))),
            "symbol" => Some(val(host, &strv(&self.id.name()))),
            "allowance" => {
                let r = match self.get(host, &allow_key(&ad(0), &ad(1))) {
                    Some(v) => {
                        let exp = fu32(&v, "exp");
                        let now: u32 = host.get_ledger_sequence().expect("seq").into();
                        if exp < now {
                            0
                        } else {
                            fi(&v, "amount")
                        }
                    }
                    None => 0,
                };
                Some(val(host, &i128v(r)))
            }
            "approve" => {
                self.gate(host);
                let (from, sp, amt) = (ad(0), ad(1), am(2));
                let exp = as_u32(&a[3]).expect("u32");
                self.auth(host, &from);
                assert!(amt >= 0, "negative allowance");
                let now: u32 = host.get_ledger_sequence().expect("seq").into();
                if amt > 0 {
                    assert!(exp >= now, "expired allowance");
                    assert!(exp <= now + crate::exec::MAX_TTL - 1, "allowance too long");
                }
                self.put(
                    host,
                    &allow_key(&from, &sp),
                    &structv(vec![("amount", i128v(amt)), ("exp", u32v(exp))]),
                );
                self.log("approve", Some(from), Some(sp), amt);
                Some(void)
            }
            "transfer" => {
                self.gate(host);
                let (from, to, amt) = (ad(0), ad(1), am(2));
                self.auth(host, &from);
                self.mv(host, &from, &to, amt);
                self.log("transfer", Some(from), Some(to), amt);
                Some(void)
            }
            "transfer_from" => {
                self.gate(host);
                let (sp, from, to, amt) = (ad(0), ad(1), ad(2), am(3));
                self.auth(host, &sp);
                let k = allow_key(&from, &sp);
                let v = self.get(host, &k).expect("no allowance");
                let now: u32 = host.get_ledger_sequence().expect("seq").into();
                let (cur, exp) = (fi(&v, "amount"), fu32(&v, "exp"));
                assert!(exp >= now && cur >= amt, "insufficient allowance");
                if amt > 0 {
                    self.put(
                        host,
                        &k,
                        &structv(vec![("amount", i128v(cur - amt)), ("exp", u32v(exp))]),
                    );
                }
                self.mv(host, &from, &to, amt);
                self.log("transfer_from", Some(from), Some(to), amt);
                Some(void)
            }
            "burn" => {
                self.gate(host);
                let (from, amt) = (ad(0), am(1));
                self.auth(host, &from);
                let b = self.bal(host, &from);
                assert!(amt >= 0 && b >= amt, "insufficient balance");
                self.set_bal(host, &from, b - amt);
                self.log("burn", Some(from), None, amt);
                Some(void)
            }
            "mint" => {
                self.gate(host);
                let (to, amt) = (ad(0), am(1));
                let admin = self.env.borrow().admins.get(&self.id).cloned();
                self.auth(host, &admin.expect("no admin"));
                assert!(amt >= 0, "negative mint");
                let b = self.bal(host, &to);
                self.set_bal(host, &to, b.checked_add(amt).expect("overflow"));
                self.log("mint", None, Some(to), amt);
                Some(void)
            }
            _ => None,
        }
    }
}

impl ContractFunctionSet for Oracle {
    fn call(&self, func: &Symbol, host: &Host, args: &[Val]) -> Option<Val> {
        let f = as_sym(&sc(host, func.to_val()))?;
        let (n, fault) = {
            let mut e = self.env.borrow_mut();
            let n = e.ora_n;
            e.ora_n += 1;
            (n, e.fault.clone())
        };
        if fault == Fault::OracleTrap(n) {
            self.env.borrow_mut().fault_fired = true;
            panic!("injected oracle failure");
        }
        match f.as_str() {
            "decimals" => {
                let d = self.env.borrow().oracles.get(&self.id).map(|o| o.decimals).unwrap_or(7);
                Some(val(host, &u32v(d)))
            }
            "lastprice" => {
                let a = sc(host, args[0]);
                let id = as_vec(&a).and_then(|v| v.get(1)).and_then(as_addr);
                let now: u64 = crate::natives::now(host);
                let p = id.and_then(|i| {
                    let e = self.env.borrow();
                    let p = e.oracles.get(&self.id)?.prices.get(&i)?;
                    Some((p.price, p.ts(now)?))
                });
                match p {
                    Some((price, ts)) => Some(val(
                        host,
                        &structv(vec![("price", i128v(price)), ("timestamp", u64v(ts))]),
                    )),
                    _ => Some(Val::VOID.to_val()),
                }
            }
            _ => None,
        }
    }
}

impl ContractFunctionSet for Trap {
    fn call(&self, _func: &Symbol, _host: &Host, _args: &[Val]) -> Option<Val> {
        self.env.borrow_mut().fault_fired = true;
        panic!("injected dependency failure");
    }
}

pub fn now(host: &Host) -> u64 {
    let v = host.get_ledger_timestamp().expect("ts");
    u64::try_from_val(host, &v).expect("u64")
}
