//! The simulated world: ledger, contracts, token and oracle stand-ins, and the checked step function.
//! Every step runs the real wasm, decodes the durable state, predicts the same operation with the reference
//! model from the state before, and evaluates the global invariants.

use crate::exec::{Call, Fail, Ledger};
use crate::model::*;
use crate::natives::*;
use crate::ops::*;
use crate::state::*;
use crate::sv::*;
use soroban_env_host::xdr::{ContractExecutable, LedgerKey, ScVal};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const H_POOL: [u8; 32] = [0x11; 32];
pub const H_BACK: [u8; 32] = [0x22; 32];
pub const H_EMIT: [u8; 32] = [0x33; 32];
pub const H_FACT: [u8; 32] = [0x44; 32];
pub const H_COMET: [u8; 32] = [0x55; 32];

#[derive(Clone)]
pub struct Wasm {
    pub pool: Vec<u8>,
    pub back: Vec<u8>,
    pub emit: Vec<u8>,
    pub fact: Vec<u8>,
    pub comet: Vec<u8>,
}
impl Wasm {
    pub fn load() -> Wasm {
        let d = std::env::var("BLEND_WASM")
            .unwrap_or_else(|_| "/repo/target/wasm32-unknown-unknown/release".into());
        let c = std::env::var("BLEND_COMET").unwrap_or_else(|_| "/repo/comet.wasm".into());
        let rd = |p: String| std::fs::read(&p).unwrap_or_else(|e| panic!("{p}: {e}"));
        Wasm {
            pool: rd(format!("{d}/pool.wasm")),
            back: rd(format!("{d}/backstop.wasm")),
            emit: rd(format!("{d}/emitter.wasm")),
            fact: rd(format!("{d}/pool_factory.wasm")),
            comet: rd(c),
        }
    }
}

/// fixed addresses
pub struct A;
impl A {
    pub fn blnd() -> Addr { Addr::tag("blnd") }
    pub fn usdc() -> Addr { Addr::tag("usdc") }
    pub fn comet() -> Addr { Addr::tag("comet") }
    pub fn emitter() -> Addr { Addr::tag("emitter") }
    pub fn backstop() -> Addr { Addr::tag("backstop") }
    pub fn bstop2() -> Addr { Addr::tag("bstop2") }
    pub fn factory() -> Addr { Addr::tag("factory") }
    pub fn rogue() -> Addr { Addr::tag("rogue") }
    pub fn admin() -> Addr { Addr::tag("admin") }
    pub fn eve() -> Addr { Addr::tag("eve") }
    pub fn whale() -> Addr { Addr::tag("whale") }
}

#[derive(Clone, Debug)]
pub struct Asset {
    pub id: Addr,
    pub dec: u32,
    /// price in cents of the base asset
    pub cents: i128,
}

#[derive(Clone, Debug, Default)]
pub struct Params {
    pub variant: u64,
    pub assets: Vec<Asset>,
    pub oracles: Vec<Addr>,
    pub users: Vec<Addr>,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: Vec<&'static str>,
    pub sig: String,
    pub detail: String,
    /// still meaningful after other operations are dropped from the run
    pub sound: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Ghost {
    /// BLND that entered by other means than the emitter
    pub outside_blnd: i128,
    /// total minted by distributions / drops (from observed supply changes)
    pub dist_secs: u64,
    pub drops: i128,
    /// per pool: BLND assigned to it and collected, BLND claimed from it
    pub pool_in: BTreeMap<Addr, i128>,
    pub pool_out: BTreeMap<Addr, i128>,
    /// per backstop: total distributed to it, collected by pools, claimed by depositors
    pub b_in: BTreeMap<Addr, i128>,
    pub b_pool: BTreeMap<Addr, i128>,
    pub b_out: BTreeMap<Addr, i128>,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub tx: u64,
    pub ok: u64,
    pub rejected: u64,
    pub secs: u64,
    pub ledgers: u64,
    pub by: BTreeMap<String, (u64, u64)>,
    pub faults: BTreeMap<&'static str, (u64, u64)>,
    pub notes: BTreeMap<String, u64>,
    pub archived: u64,
    pub musts: u64,
    /// steps that exercised each property
    pub rel: BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.tx += o.tx;
        self.ok += o.ok;
        self.rejected += o.rejected;
        self.secs += o.secs;
        self.ledgers += o.ledgers;
        self.archived += o.archived;
        self.musts += o.musts;
        for (k, v) in &o.by {
            let e = self.by.entry(k.clone()).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        for (k, v) in &o.faults {
            let e = self.faults.entry(k).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        for (k, v) in &o.rel {
            *self.rel.entry(k).or_default() += v;
        }
        for (k, v) in &o.notes {
            *self.notes.entry(k.clone()).or_default() += v;
        }
    }
    pub fn note(&mut self, k: &str) {
        *self.notes.entry(k.to_string()).or_default() += 1;
    }
}

pub struct World {
    pub led: Ledger,
    pub nat: Natives,
    pub env: Rc<RefCell<NativeEnv>>,
    pub tokens: BTreeSet<Addr>,
    pub salts: BTreeSet<(Addr, Addr, Vec<u8>)>,
    pub s: S,
    pub p: Rc<Params>,
    pub g: Ghost,
    pub st: Stats,
    pub viol: Vec<Viol>,
    /// recorded genuine defects met in this run
    pub known: BTreeMap<String, u64>,
    /// backstops that became current again after having been replaced (see known findings)
    pub returned: BTreeSet<Addr>,
    /// pools whose allowance lapsed while assigned emissions were still uncollected (see known findings)
    pub lapsed: BTreeSet<Addr>,
    pub kinds: Rc<RefCell<BTreeMap<Addr, Kind>>>,
}

pub struct StepOut {
    pub ok: bool,
    pub ret: Option<ScVal>,
    pub predicted: bool,
    pub err: Option<Fail>,
    pub why: Option<String>,
}

fn mk_natives(env: &Rc<RefCell<NativeEnv>>, tokens: &BTreeSet<Addr>) -> Natives {
    let mut n = Natives::default();
    for t in tokens {
        n.list.push((*t, Rc::new(Token { id: *t, env: env.clone() })));
    }
    for o in env.borrow().oracles.keys() {
        n.list.push((*o, Rc::new(Oracle { id: *o, env: env.clone() })));
    }
    n
}

fn kind_of(led: &Ledger, tokens: &BTreeSet<Addr>, a: &Addr) -> Kind {
    if tokens.contains(a) {
        return Kind::Token;
    }
    match led.data(a, ScVal::LedgerKeyContractInstance, false) {
        Some(ScVal::ContractInstance(i)) => match &i.executable {
            ContractExecutable::Wasm(h) => match h.0 {
                H_POOL => Kind::Pool,
                H_BACK => Kind::Backstop,
                H_EMIT => Kind::Emitter,
                H_FACT => Kind::Factory,
                H_COMET => Kind::Comet,
                _ => Kind::None,
            },
            _ => Kind::None,
        },
        _ => Kind::None,
    }
}

impl World {
    pub fn empty(w: &Wasm, p: Params, seq: u32, ts: u64) -> World {
        let mut led = Ledger::new(seq, ts);
        led.install_wasm(H_POOL, &w.pool);
        led.install_wasm(H_BACK, &w.back);
        led.install_wasm(H_EMIT, &w.emit);
        led.install_wasm(H_FACT, &w.fact);
        led.install_wasm(H_COMET, &w.comet);
        for (a, h) in [
            (A::rogue(), H_POOL),
            (A::backstop(), H_BACK),
            (A::bstop2(), H_BACK),
            (A::emitter(), H_EMIT),
            (A::factory(), H_FACT),
            (A::comet(), H_COMET),
        ] {
            led.install_contract(&a, h);
        }
        let mut tokens: BTreeSet<Addr> = p.assets.iter().map(|a| a.id).collect();
        tokens.insert(A::blnd());
        tokens.insert(A::usdc());
        led.immortal = tokens.iter().cloned().collect();
        led.immortal.push(A::comet());
        for (k, e) in led.map.iter_mut() {
            if let LedgerKey::ContractData(d) = &**k {
                if d.contract == A::comet().sc() {
                    e.live = Some(u32::MAX);
                }
            }
        }
        let mut decimals: BTreeMap<Addr, u32> = p.assets.iter().map(|a| (a.id, a.dec)).collect();
        decimals.insert(A::blnd(), 7);
        decimals.insert(A::usdc(), 7);
        let mut oracles = BTreeMap::new();
        for o in &p.oracles {
            oracles.insert(*o, OracleSt { decimals: 7, prices: BTreeMap::new() });
        }
        let mut admins = BTreeMap::new();
        admins.insert(A::blnd(), A::emitter());
        let env = Rc::new(RefCell::new(NativeEnv {
            oracles,
            fault: Fault::None,
            fault_fired: false,
            tok_n: 0,
            ora_n: 0,
            trace: vec![],
            decimals,
            admins,
        }));
        let nat = mk_natives(&env, &tokens);
        let mut x = World {
            led,
            nat,
            env,
            tokens,
            salts: BTreeSet::new(),
            s: S::default(),
            p: Rc::new(p),
            g: Ghost::default(),
            st: Stats::default(),
            viol: vec![],
            known: BTreeMap::new(),
            returned: BTreeSet::new(),
            lapsed: BTreeSet::new(),
            kinds: Rc::new(RefCell::new(BTreeMap::new())),
        };
        x.s = x.decode();
        x
    }

    pub fn fork(&self) -> World {
        let env = Rc::new(RefCell::new(self.env.borrow().clone()));
        World {
            led: self.led.clone(),
            nat: mk_natives(&env, &self.tokens),
            env,
            tokens: self.tokens.clone(),
            salts: self.salts.clone(),
            s: self.s.clone(),
            p: self.p.clone(),
            g: self.g.clone(),
            st: Stats::default(),
            viol: vec![],
            known: BTreeMap::new(),
            returned: self.returned.clone(),
            lapsed: self.lapsed.clone(),
            kinds: Rc::new(RefCell::new(self.kinds.borrow().clone())),
        }
    }

    pub fn kind(&self, a: &Addr) -> Kind {
        if let Some(k) = self.kinds.borrow().get(a) {
            return *k;
        }
        let k = kind_of(&self.led, &self.tokens, a);
        if k != Kind::None {
            self.kinds.borrow_mut().insert(*a, k);
        }
        k
    }
    pub fn decode(&self) -> S {
        S::decode(&self.led, &|a| self.kind(a))
    }

    /// pools of the factory, in a stable order, plus the rogue one when initialised
    pub fn pools(&self) -> Vec<Addr> {
        self.s.pools.keys().cloned().collect()
    }

    /// Predict an operation without running it.
    pub fn predict<T>(&self, t: &Tx, f: impl FnOnce(&mut M) -> T) -> T {
        let led = RefCell::new(self.led.clone());
        let quote = |u: &Addr, amt: i128| -> Option<i128> { quote(&mut led.borrow_mut(), &self.nat, &self.env, u, amt) };
        let oracles = self.env.borrow().oracles.clone();
        let kind = |a: &Addr| self.kind(a);
        let ctx = Ctx {
            oracles: &oracles,
            signers: &t.signers,
            down: match &t.fault {
                Fault::Down(a) => Some(*a),
                _ => None,
            },
            blnd_admin: A::emitter(),
            pool_hash: H_POOL.to_vec(),
            quote: &quote,
            comet: A::comet(),
            deployed: None,
            salts: &self.salts,
            kind: &kind,
        };
        let mut m = M::new(self.s.clone(), &ctx);
        f(&mut m)
    }

    pub fn step(&mut self, op: &Op) -> StepOut {
        match op {
            Op::Tx(t) => self.step_tx(t),
            Op::Time { ledgers, secs } => {
                self.led.seq = self.led.seq.saturating_add(*ledgers);
                self.led.ts += *secs;
                self.st.secs += *secs;
                self.st.ledgers += *ledgers as u64;
                let post = self.decode();
                crate::check::time_step(self, &post);
                self.s = post;
                done(true)
            }
            Op::Price { oracle, asset, price, feed } => {
                let f = Op::feed(*feed, self.led.ts);
                if let Some(o) = self.env.borrow_mut().oracles.get_mut(oracle) {
                    o.prices.insert(*asset, Price { price: *price, feed: f });
                }
                done(true)
            }
            Op::Give { token, to, amount } => {
                let cur = self.s.bal(token, to);
                self.led.put_bal(token, to, cur + amount);
                self.s.tok.insert((*token, *to), cur + amount);
                if *token == A::blnd() {
                    self.g.outside_blnd += amount;
                }
                done(true)
            }
        }
    }

    fn step_tx(&mut self, t: &Tx) -> StepOut {
        // contracts sign nothing on their own
        let own: Tx;
        let t = if t.signers.iter().any(|a| self.s.back.contains_key(a) || self.s.pools.contains_key(a)) {
            let mut x = t.clone();
            x.signers.retain(|a| !self.s.back.contains_key(a) && !self.s.pools.contains_key(a));
            own = x;
            &own
        } else {
            t
        };
        let pre_led = self.led.clone();
        let kind = self.kind(&t.to);
        let mut nat = self.nat.clone();
        let mut cpu = None;
        {
            let mut e = self.env.borrow_mut();
            e.fault = t.fault.clone();
        }
        let mut down = None;
        match &t.fault {
            Fault::Down(a) => {
                nat.list.retain(|(x, _)| x != a);
                nat.list.push((*a, Rc::new(Trap { env: self.env.clone() })));
                down = Some(*a);
            }
            Fault::Budget(c) => cpu = Some(*c),
            _ => {}
        }
        let call = Call { to: t.to, func: t.func.clone(), args: t.args.clone() };
        let out = self.led.run(&call, &t.signers, &nat, &self.env, cpu, true);
        self.env.borrow_mut().fault = Fault::None;
        let ok = out.res.is_ok();
        let post = if ok { self.decode() } else { self.s.clone() };

        // prediction from the state before
        let led = RefCell::new(pre_led);
        let quote = |u: &Addr, amt: i128| -> Option<i128> { quote(&mut led.borrow_mut(), &self.nat, &self.env, u, amt) };
        let oracles = self.env.borrow().oracles.clone();
        let kindf = |a: &Addr| self.kind(a);
        let deployed = out.res.as_ref().ok().and_then(as_addr);
        let ctx = Ctx {
            oracles: &oracles,
            signers: &t.signers,
            down,
            blnd_admin: A::emitter(),
            pool_hash: H_POOL.to_vec(),
            quote: &quote,
            comet: A::comet(),
            deployed,
            salts: &self.salts,
            kind: &kindf,
        };
        let mut m = M::new(self.s.clone(), &ctx);
        let opaque = kind == Kind::Comet
            && !["transfer", "approve", "transfer_from", "balance"].contains(&t.func.as_str());
        let mut broke = false;
        let pred = if opaque {
            Ok(crate::model2::Ret::Any)
        } else {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.apply(t))) {
                Ok(x) => x,
                Err(_) => {
                    broke = true;
                    crate::model::math()
                }
            }
        };
        let pm = crate::check::Pred {
            auths: m.auths.clone(),
            uses: m.uses.clone(),
            valued: m.valued,
            notes: m.notes.clone(),
            evs: std::mem::take(&mut m.evs),
            res: pred,
            s: m.s,
            opaque,
        };
        drop(ctx);
        let why = pm.res.as_ref().err().map(|r| r.why.clone());
        let predicted = pm.res.is_ok();

        // statistics
        self.st.tx += 1;
        if ok {
            self.st.ok += 1;
        } else {
            self.st.rejected += 1;
        }
        self.st.archived += out.archived_reads.len() as u64;
        let nm = format!("{:?}.{}", kind, t.func);
        let e = self.st.by.entry(nm).or_default();
        if ok {
            e.0 += 1;
        } else {
            e.1 += 1;
        }
        let fname = match &t.fault {
            Fault::None => None,
            Fault::TokenTrap(_) => Some("token_call_fails"),
            Fault::OracleTrap(_) => Some("oracle_call_fails"),
            Fault::Reenter(..) => Some("token_reenters"),
            Fault::Budget(_) => Some("budget_exhausted"),
            Fault::Down(_) => Some("dependency_down"),
            Fault::Noop => None,
        };
        if let Some(f) = fname {
            let fired = out.fault_fired || matches!(out.res, Err(Fail::Budget));
            let e = self.st.faults.entry(f).or_default();
            e.0 += 1;
            e.1 += fired as u64;
        }
        for n in &pm.notes {
            self.st.note(n);
        }
        if t.must {
            self.st.musts += 1;
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::check::tx_step(self, t, kind, &out, &pm, &post)));
        if r.is_err() {
            self.st.note("harness_judge_died");
        }
        if broke {
            self.st.note("harness_model_died");
        }
        if ok && t.func == "deploy" && kind == Kind::Factory {
            if let (Some(a), Some(ScVal::Bytes(b))) = (t.args.first().and_then(as_addr), t.args.get(2)) {
                self.salts.insert((t.to, a, b.as_slice().to_vec()));
            }
        }
        self.s = post;
        StepOut {
            ok,
            ret: out.res.as_ref().ok().cloned(),
            predicted,
            err: out.res.err(),
            why,
        }
    }

    pub fn digest(&self) -> u64 {
        let mut f = crate::prng::Fnv::new();
        f.u(self.s.seq as u64);
        f.u(self.s.ts);
        f.s(&format!("{:?}", self.s));
        f.0
    }
}

fn done(ok: bool) -> StepOut {
    StepOut { ok, ret: None, predicted: true, err: None, why: None }
}

/// What the real liquidity pool would mint for a single-sided BLND deposit by `u`.
pub fn quote(led: &mut Ledger, nat: &Natives, env: &Rc<RefCell<NativeEnv>>, u: &Addr, amt: i128) -> Option<i128> {
    let c = Call {
        to: A::comet(),
        func: "dep_tokn_amt_in_get_lp_tokns_out".into(),
        args: vec![addr(&A::blnd()), i128v(amt), i128v(0), addr(u)],
    };
    // the pool is wasm here even while a fault takes other contracts down
    led.run(&c, &[*u], nat, env, None, false).res.ok().and_then(|v| as_i128(&v))
}
