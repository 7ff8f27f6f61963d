//! Typed view of the durable ledger: decoded from raw contract storage after every simulated step.

use crate::exec::{Ledger, LMap};
use crate::sv::*;
use soroban_env_host::xdr::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct ResCfg {
    pub index: u32,
    pub decimals: u32,
    pub c_factor: u32,
    pub l_factor: u32,
    pub util: u32,
    pub max_util: u32,
    pub r_base: u32,
    pub r_one: u32,
    pub r_two: u32,
    pub r_three: u32,
    pub reactivity: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct ResData {
    pub d_rate: i128,
    pub b_rate: i128,
    pub ir_mod: i128,
    pub b_supply: i128,
    pub d_supply: i128,
    pub credit: i128,
    pub last_time: u64,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Pos {
    pub liab: BTreeMap<u32, i128>,
    pub coll: BTreeMap<u32, i128>,
    pub supp: BTreeMap<u32, i128>,
}
impl Pos {
    pub fn is_empty(&self) -> bool {
        self.liab.is_empty() && self.coll.is_empty() && self.supp.is_empty()
    }
    pub fn count(&self) -> u32 {
        (self.liab.len() + self.coll.len()) as u32
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Auction {
    pub bid: BTreeMap<Addr, i128>,
    pub lot: BTreeMap<Addr, i128>,
    pub block: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct PoolS {
    pub admin: Addr,
    pub name: String,
    pub backstop: Addr,
    pub blnd: Addr,
    pub oracle: Addr,
    pub bstop_rate: u32,
    pub status: u32,
    pub max_positions: u32,
    pub res_list: Vec<Addr>,
    pub cfg: BTreeMap<Addr, ResCfg>,
    pub data: BTreeMap<Addr, ResData>,
    pub queued: BTreeMap<Addr, (ResCfg, u64)>,
    pub emis_share: BTreeMap<u32, u64>,
    /// (expiration, eps)
    pub ecfg: BTreeMap<u32, (u64, u64)>,
    /// (index, last_time)
    pub edata: BTreeMap<u32, (i128, u64)>,
    pub pos: BTreeMap<Addr, Pos>,
    /// (index, accrued)
    pub uemis: BTreeMap<(Addr, u32), (i128, i128)>,
    pub auctions: BTreeMap<(u32, Addr), Auction>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct PBal {
    pub shares: i128,
    pub tokens: i128,
    pub q4w: i128,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct UBal {
    pub shares: i128,
    pub q4w: Vec<(i128, u64)>,
}
impl UBal {
    pub fn total(&self) -> i128 {
        self.shares + self.q4w.iter().map(|x| x.0).sum::<i128>()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct BackS {
    pub emitter: Addr,
    pub token: Addr,
    pub factory: Addr,
    pub blnd: Addr,
    pub usdc: Addr,
    pub last_dist: u64,
    pub rz: Vec<Addr>,
    pub lp_val: Option<(i128, i128)>,
    pub pbal: BTreeMap<Addr, PBal>,
    pub ubal: BTreeMap<(Addr, Addr), UBal>,
    pub pool_emis: BTreeMap<Addr, i128>,
    pub ecfg: BTreeMap<Addr, (u64, u64)>,
    pub edata: BTreeMap<Addr, (i128, u64)>,
    pub uemis: BTreeMap<(Addr, Addr), (i128, i128)>,
    pub drop_list: Option<Vec<(Addr, i128)>>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct EmitS {
    pub backstop: Addr,
    pub token: Addr,
    pub blnd: Addr,
    pub swap: Option<(Addr, Addr, u64)>,
    pub last: BTreeMap<Addr, u64>,
    pub dropped: BTreeSet<Addr>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct FactS {
    pub pool_hash: Vec<u8>,
    pub backstop: Addr,
    pub blnd: Addr,
    pub pools: BTreeSet<Addr>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct S {
    pub seq: u32,
    pub ts: u64,
    pub tok: BTreeMap<(Addr, Addr), i128>,
    /// (token, from, spender) -> (amount, expiration ledger)
    pub allow: BTreeMap<(Addr, Addr, Addr), (i128, u32)>,
    pub pools: BTreeMap<Addr, PoolS>,
    pub back: BTreeMap<Addr, BackS>,
    pub emit: BTreeMap<Addr, EmitS>,
    pub fact: BTreeMap<Addr, FactS>,
    /// comet pool: opaque state (raw key/value), total LP supply
    pub comet: BTreeMap<Vec<u8>, Vec<u8>>,
    pub comet_supply: i128,
    /// storage that belongs to no known record: a digest by contract and key
    pub other: BTreeMap<(Addr, String), String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Pool,
    Backstop,
    Emitter,
    Factory,
    Comet,
    Token,
    None,
}

impl Default for Addr {
    fn default() -> Self {
        Addr([0; 32])
    }
}

fn payload(k: &ScVal) -> (String, &[ScVal]) {
    match k {
        ScVal::Symbol(_) => (as_sym(k).unwrap(), &[]),
        ScVal::Vec(Some(v)) if !v.is_empty() => match as_sym(&v[0]) {
            Some(s) => (s, &v.as_slice()[1..]),
            None => (String::new(), &[]),
        },
        _ => (String::new(), &[]),
    }
}

fn rescfg(v: &ScVal) -> ResCfg {
    ResCfg {
        index: fu32(v, "index"),
        decimals: fu32(v, "decimals"),
        c_factor: fu32(v, "c_factor"),
        l_factor: fu32(v, "l_factor"),
        util: fu32(v, "util"),
        max_util: fu32(v, "max_util"),
        r_base: fu32(v, "r_base"),
        r_one: fu32(v, "r_one"),
        r_two: fu32(v, "r_two"),
        r_three: fu32(v, "r_three"),
        reactivity: fu32(v, "reactivity"),
    }
}
pub fn rescfg_sc(c: &ResCfg) -> ScVal {
    structv(vec![
        ("index", u32v(c.index)),
        ("decimals", u32v(c.decimals)),
        ("c_factor", u32v(c.c_factor)),
        ("l_factor", u32v(c.l_factor)),
        ("util", u32v(c.util)),
        ("max_util", u32v(c.max_util)),
        ("r_base", u32v(c.r_base)),
        ("r_one", u32v(c.r_one)),
        ("r_two", u32v(c.r_two)),
        ("r_three", u32v(c.r_three)),
        ("reactivity", u32v(c.reactivity)),
    ])
}
pub fn rescfg_parse(v: &ScVal) -> ResCfg {
    rescfg(v)
}

fn u32map(v: Option<&ScVal>) -> BTreeMap<u32, i128> {
    let mut m = BTreeMap::new();
    if let Some(x) = v.and_then(as_map) {
        for e in x {
            if let (Some(k), Some(a)) = (as_u32(&e.key), as_i128(&e.val)) {
                m.insert(k, a);
            }
        }
    }
    m
}
fn addrmap(v: Option<&ScVal>) -> BTreeMap<Addr, i128> {
    let mut m = BTreeMap::new();
    if let Some(x) = v.and_then(as_map) {
        for e in x {
            if let (Some(k), Some(a)) = (as_addr(&e.key), as_i128(&e.val)) {
                m.insert(k, a);
            }
        }
    }
    m
}
pub fn pos_of(v: &ScVal) -> Pos {
    Pos {
        liab: u32map(field(v, "liabilities")),
        coll: u32map(field(v, "collateral")),
        supp: u32map(field(v, "supply")),
    }
}
pub fn auction_of(v: &ScVal) -> Auction {
    Auction {
        bid: addrmap(field(v, "bid")),
        lot: addrmap(field(v, "lot")),
        block: fu32(v, "block"),
    }
}
pub fn addr_list(v: &ScVal) -> Vec<Addr> {
    as_vec(v)
        .map(|x| x.iter().filter_map(as_addr).collect())
        .unwrap_or_default()
}
fn fa(v: &ScVal, n: &str) -> Addr {
    field(v, n).and_then(as_addr).unwrap_or_default()
}
fn string_of(v: &ScVal) -> String {
    match v {
        ScVal::String(s) => String::from_utf8_lossy(s.as_slice()).to_string(),
        _ => format!("{:?}", v),
    }
}
pub fn pair_list(v: &ScVal) -> Vec<(Addr, i128)> {
    as_vec(v)
        .map(|x| {
            x.iter()
                .filter_map(|p| {
                    let p = as_vec(p)?;
                    Some((as_addr(p.first()?)?, as_i128(p.get(1)?)?))
                })
                .collect()
        })
        .unwrap_or_default()
}

impl S {
    pub fn decode(l: &Ledger, kind: &dyn Fn(&Addr) -> Kind) -> S {
        let mut s = S {
            seq: l.seq,
            ts: l.ts,
            ..Default::default()
        };
        let map: &LMap = &l.map;
        for (k, e) in map.iter() {
            let d = match &e.le.data {
                LedgerEntryData::ContractData(d) => d,
                _ => continue,
            };
            if d.durability == ContractDataDurability::Temporary {
                if let Some(live) = e.live {
                    if live < l.seq {
                        continue;
                    }
                }
            }
            let _ = k;
            let c = match &d.contract {
                ScAddress::Contract(h) => Addr(h.0),
                _ => continue,
            };
            match kind(&c) {
                Kind::Pool => s.pool_entry(c, &d.key, &d.val),
                Kind::Backstop => s.back_entry(c, &d.key, &d.val),
                Kind::Emitter => s.emit_entry(c, &d.key, &d.val),
                Kind::Factory => s.fact_entry(c, &d.key, &d.val),
                Kind::Comet => s.comet_entry(c, &d.key, &d.val),
                Kind::Token => s.token_entry(c, &d.key, &d.val),
                Kind::None => {}
            }
        }
        s
    }

    fn token_entry(&mut self, c: Addr, k: &ScVal, v: &ScVal) {
        let (n, p) = payload(k);
        match n.as_str() {
            "Balance" => {
                let x = as_i128(v).unwrap_or(0);
                if x != 0 {
                    self.tok.insert((c, as_addr(&p[0]).unwrap()), x);
                }
            }
            "Allowance" => {
                let (a, exp) = (fi(v, "amount"), fu32(v, "exp"));
                self.allow.insert(
                    (c, as_addr(&p[0]).unwrap(), as_addr(&p[1]).unwrap()),
                    (a, exp),
                );
            }
            _ => {}
        }
    }

    fn comet_entry(&mut self, c: Addr, k: &ScVal, v: &ScVal) {
        let (n, p) = payload(k);
        if n == "Balance" && p.len() == 1 {
            if let (Some(a), Some(x)) = (as_addr(&p[0]), as_i128(v)) {
                if x != 0 {
                    self.tok.insert((c, a), x);
                }
                return;
            }
        }
        if n == "Allowance" {
            return;
        }
        if n == "TotalShares" {
            self.comet_supply = as_i128(v).unwrap_or(0);
        }
        use soroban_env_host::xdr::{Limits, WriteXdr};
        self.comet.insert(
            k.to_xdr(Limits::none()).unwrap(),
            v.to_xdr(Limits::none()).unwrap(),
        );
    }

    fn inst<'a>(v: &'a ScVal) -> Vec<(String, &'a ScVal)> {
        match v {
            ScVal::ContractInstance(i) => match &i.storage {
                Some(m) => m.iter().map(|e| (payload(&e.key).0, &e.val)).collect(),
                None => vec![],
            },
            _ => vec![],
        }
    }

    fn pool_entry(&mut self, c: Addr, k: &ScVal, v: &ScVal) {
        if matches!(k, ScVal::LedgerKeyContractInstance) {
            let m = Self::inst(v);
            if !m.iter().any(|(n, v)| n == "IsInit" && as_bool(v) == Some(true)) {
                return;
            }
            let pl = self.pools.entry(c).or_default();
            for (n, v) in m {
                match n.as_str() {
                    "IsInit" => {}
                    "Admin" => pl.admin = as_addr(v).unwrap_or_default(),
                    "Name" => pl.name = string_of(v),
                    "Backstop" => pl.backstop = as_addr(v).unwrap_or_default(),
                    "BLNDTkn" => pl.blnd = as_addr(v).unwrap_or_default(),
                    "Config" => {
                        pl.oracle = fa(v, "oracle");
                        pl.bstop_rate = fu32(v, "bstop_rate");
                        pl.status = fu32(v, "status");
                        pl.max_positions = fu32(v, "max_positions");
                    }
                    _ => {
                        self.other.insert((c, n), format!("{:?}", v));
                    }
                }
            }
            return;
        }
        let (n, p) = payload(k);
        let pl = self.pools.entry(c).or_default();
        let a0 = p.first().and_then(as_addr);
        let i0 = p.first().and_then(as_u32);
        match (n.as_str(), a0, i0) {
            ("ResList", _, _) => pl.res_list = addr_list(v),
            ("PoolEmis", _, _) => {
                for e in as_map(v).unwrap_or(&[]) {
                    if let (Some(k), Some(x)) = (as_u32(&e.key), as_u64(&e.val)) {
                        pl.emis_share.insert(k, x);
                    }
                }
            }
            ("ResConfig", Some(a), _) => {
                pl.cfg.insert(a, rescfg(v));
            }
            ("ResInit", Some(a), _) => {
                if let Some(c) = field(v, "new_config") {
                    pl.queued.insert(a, (rescfg(c), fu64(v, "unlock_time")));
                }
            }
            ("ResData", Some(a), _) => {
                pl.data.insert(
                    a,
                    ResData {
                        d_rate: fi(v, "d_rate"),
                        b_rate: fi(v, "b_rate"),
                        ir_mod: fi(v, "ir_mod"),
                        b_supply: fi(v, "b_supply"),
                        d_supply: fi(v, "d_supply"),
                        credit: fi(v, "backstop_credit"),
                        last_time: fu64(v, "last_time"),
                    },
                );
            }
            ("EmisConfig", _, Some(i)) => {
                pl.ecfg.insert(i, (fu64(v, "expiration"), fu64(v, "eps")));
            }
            ("EmisData", _, Some(i)) => {
                pl.edata.insert(i, (fi(v, "index"), fu64(v, "last_time")));
            }
            ("Positions", Some(a), _) => {
                let ps = pos_of(v);
                if !ps.is_empty() {
                    pl.pos.insert(a, ps);
                }
            }
            ("UserEmis", _, _) => {
                pl.uemis.insert(
                    (fa(&p[0], "user"), fu32(&p[0], "reserve_id")),
                    (fi(v, "index"), fi(v, "accrued")),
                );
            }
            ("Auction", _, _) => {
                pl.auctions.insert(
                    (fu32(&p[0], "auct_type"), fa(&p[0], "user")),
                    auction_of(v),
                );
            }
            _ => {
                self.other
                    .insert((c, format!("{:?}", k)), format!("{:?}", v));
            }
        }
    }

    fn back_entry(&mut self, c: Addr, k: &ScVal, v: &ScVal) {
        if matches!(k, ScVal::LedgerKeyContractInstance) {
            let m = Self::inst(v);
            if !m.iter().any(|(n, v)| n == "IsInit" && as_bool(v) == Some(true)) {
                return;
            }
            let b = self.back.entry(c).or_default();
            for (n, v) in m {
                let a = as_addr(v).unwrap_or_default();
                match n.as_str() {
                    "IsInit" => {}
                    "Emitter" => b.emitter = a,
                    "BToken" => b.token = a,
                    "PoolFact" => b.factory = a,
                    "BLNDTkn" => b.blnd = a,
                    "USDCTkn" => b.usdc = a,
                    _ => {
                        self.other.insert((c, n), format!("{:?}", v));
                    }
                }
            }
            return;
        }
        let (n, p) = payload(k);
        let b = self.back.entry(c).or_default();
        let a0 = p.first().and_then(as_addr);
        match (n.as_str(), a0) {
            ("LastDist", _) => b.last_dist = as_u64(v).unwrap_or(0),
            ("RZ", _) => b.rz = addr_list(v),
            ("DropList", _) => b.drop_list = Some(pair_list(v)),
            ("LPTknVal", _) => {
                if let Some(x) = as_vec(v) {
                    b.lp_val = Some((as_i128(&x[0]).unwrap_or(0), as_i128(&x[1]).unwrap_or(0)));
                }
            }
            ("UserBalance", _) => {
                let u = UBal {
                    shares: fi(v, "shares"),
                    q4w: field(v, "q4w")
                        .and_then(as_vec)
                        .unwrap_or(&[])
                        .iter()
                        .map(|q| (fi(q, "amount"), fu64(q, "exp")))
                        .collect(),
                };
                if u != UBal::default() {
                    b.ubal.insert((fa(&p[0], "pool"), fa(&p[0], "user")), u);
                }
            }
            ("PoolBalance", Some(a)) => {
                let x = PBal {
                    shares: fi(v, "shares"),
                    tokens: fi(v, "tokens"),
                    q4w: fi(v, "q4w"),
                };
                if x != PBal::default() {
                    b.pbal.insert(a, x);
                }
            }
            ("PoolEmis", Some(a)) => {
                let x = as_i128(v).unwrap_or(0);
                if x != 0 {
                    b.pool_emis.insert(a, x);
                }
            }
            ("BEmisCfg", Some(a)) => {
                b.ecfg.insert(a, (fu64(v, "expiration"), fu64(v, "eps")));
            }
            ("BEmisData", Some(a)) => {
                b.edata.insert(a, (fi(v, "index"), fu64(v, "last_time")));
            }
            ("UEmisData", _) => {
                b.uemis.insert(
                    (fa(&p[0], "pool"), fa(&p[0], "user")),
                    (fi(v, "index"), fi(v, "accrued")),
                );
            }
            _ => {
                self.other
                    .insert((c, format!("{:?}", k)), format!("{:?}", v));
            }
        }
    }

    fn emit_entry(&mut self, c: Addr, k: &ScVal, v: &ScVal) {
        if matches!(k, ScVal::LedgerKeyContractInstance) {
            let m = Self::inst(v);
            if !m.iter().any(|(n, v)| n == "IsInit" && as_bool(v) == Some(true)) {
                return;
            }
            let b = self.emit.entry(c).or_default();
            for (n, v) in m {
                let a = as_addr(v).unwrap_or_default();
                match n.as_str() {
                    "IsInit" => {}
                    "Backstop" => b.backstop = a,
                    "BToken" => b.token = a,
                    "BLNDTkn" => b.blnd = a,
                    _ => {
                        self.other.insert((c, n), format!("{:?}", v));
                    }
                }
            }
            return;
        }
        let (n, p) = payload(k);
        let b = self.emit.entry(c).or_default();
        let a0 = p.first().and_then(as_addr);
        match (n.as_str(), a0) {
            ("Swap", _) => {
                b.swap = Some((
                    fa(v, "new_backstop"),
                    fa(v, "new_backstop_token"),
                    fu64(v, "unlock_time"),
                ))
            }
            ("LastDistro", Some(a)) => {
                b.last.insert(a, as_u64(v).unwrap_or(0));
            }
            ("Dropped", Some(a)) => {
                if as_bool(v) == Some(true) {
                    b.dropped.insert(a);
                }
            }
            _ => {
                self.other
                    .insert((c, format!("{:?}", k)), format!("{:?}", v));
            }
        }
    }

    fn fact_entry(&mut self, c: Addr, k: &ScVal, v: &ScVal) {
        if matches!(k, ScVal::LedgerKeyContractInstance) {
            let m = Self::inst(v);
            if !m.iter().any(|(n, v)| n == "IsInit" && as_bool(v) == Some(true)) {
                return;
            }
            let b = self.fact.entry(c).or_default();
            for (n, v) in m {
                match n.as_str() {
                    "IsInit" => {}
                    "PoolMeta" => {
                        if let Some(ScVal::Bytes(x)) = field(v, "pool_hash") {
                            b.pool_hash = x.to_vec();
                        }
                        b.backstop = fa(v, "backstop");
                        b.blnd = fa(v, "blnd_id");
                    }
                    _ => {
                        self.other.insert((c, n), format!("{:?}", v));
                    }
                }
            }
            return;
        }
        let (n, p) = payload(k);
        let b = self.fact.entry(c).or_default();
        match (n.as_str(), p.first().and_then(as_addr)) {
            ("Contracts", Some(a)) => {
                if as_bool(v) == Some(true) {
                    b.pools.insert(a);
                }
            }
            _ => {
                self.other
                    .insert((c, format!("{:?}", k)), format!("{:?}", v));
            }
        }
    }

    /// Flattened view, used to describe differences.
    pub fn flat(&self) -> BTreeMap<String, String> {
        let mut m = BTreeMap::new();
        let mut put = |k: String, v: String| {
            m.insert(k, v);
        };
        for ((t, a), x) in &self.tok {
            put(format!("tok/{:?}/{:?}", t, a), x.to_string());
        }
        for ((t, a, b), x) in &self.allow {
            put(format!("allow/{:?}/{:?}/{:?}", t, a, b), format!("{:?}", x));
        }
        for (c, p) in &self.pools {
            let c = format!("{:?}", c);
            put(format!("pool/{c}/admin"), format!("{:?}", p.admin));
            put(format!("pool/{c}/name"), p.name.clone());
            put(format!("pool/{c}/wiring"), format!("{:?} {:?} {:?}", p.backstop, p.blnd, p.oracle));
            put(format!("pool/{c}/bstop_rate"), p.bstop_rate.to_string());
            put(format!("pool/{c}/status"), p.status.to_string());
            put(format!("pool/{c}/max_positions"), p.max_positions.to_string());
            put(format!("pool/{c}/res_list"), format!("{:?}", p.res_list));
            for (a, x) in &p.cfg {
                put(format!("pool/{c}/cfg/{:?}", a), format!("{:?}", x));
            }
            for (a, x) in &p.data {
                for (n, v) in [
                    ("d_rate", x.d_rate),
                    ("b_rate", x.b_rate),
                    ("ir_mod", x.ir_mod),
                    ("b_supply", x.b_supply),
                    ("d_supply", x.d_supply),
                    ("credit", x.credit),
                    ("last_time", x.last_time as i128),
                ] {
                    put(format!("pool/{c}/data/{:?}/{n}", a), v.to_string());
                }
            }
            for (a, x) in &p.queued {
                put(format!("pool/{c}/queued/{:?}", a), format!("{:?}", x));
            }
            put(format!("pool/{c}/emis_share"), format!("{:?}", p.emis_share));
            for (a, x) in &p.ecfg {
                put(format!("pool/{c}/ecfg/{a}"), format!("{:?}", x));
            }
            for (a, x) in &p.edata {
                put(format!("pool/{c}/edata/{a}"), format!("{:?}", x));
            }
            for (u, x) in &p.pos {
                for (n, mm) in [("liab", &x.liab), ("coll", &x.coll), ("supp", &x.supp)] {
                    for (i, v) in mm {
                        put(format!("pool/{c}/pos/{:?}/{n}/{i}", u), v.to_string());
                    }
                }
            }
            for ((u, i), x) in &p.uemis {
                put(format!("pool/{c}/uemis/{:?}/{i}", u), format!("{:?}", x));
            }
            for ((t, u), x) in &p.auctions {
                put(format!("pool/{c}/auction/{t}/{:?}", u), format!("{:?}", x));
            }
        }
        for (c, b) in &self.back {
            let c = format!("{:?}", c);
            put(
                format!("back/{c}/wiring"),
                format!("{:?} {:?} {:?} {:?} {:?}", b.emitter, b.token, b.factory, b.blnd, b.usdc),
            );
            put(format!("back/{c}/last_dist"), b.last_dist.to_string());
            put(format!("back/{c}/rz"), format!("{:?}", b.rz));
            put(format!("back/{c}/lp_val"), format!("{:?}", b.lp_val));
            put(format!("back/{c}/drop_list"), format!("{:?}", b.drop_list));
            for (a, x) in &b.pbal {
                put(format!("back/{c}/pbal/{:?}", a), format!("{:?}", x));
            }
            for ((p, u), x) in &b.ubal {
                put(format!("back/{c}/ubal/{:?}/{:?}/shares", p, u), x.shares.to_string());
                if !x.q4w.is_empty() {
                    put(format!("back/{c}/ubal/{:?}/{:?}/q4w", p, u), format!("{:?}", x.q4w));
                }
            }
            for (a, x) in &b.pool_emis {
                put(format!("back/{c}/pool_emis/{:?}", a), x.to_string());
            }
            for (a, x) in &b.ecfg {
                put(format!("back/{c}/ecfg/{:?}", a), format!("{:?}", x));
            }
            for (a, x) in &b.edata {
                put(format!("back/{c}/edata/{:?}", a), format!("{:?}", x));
            }
            for ((p, u), x) in &b.uemis {
                put(format!("back/{c}/uemis/{:?}/{:?}", p, u), format!("{:?}", x));
            }
        }
        for (c, x) in &self.emit {
            let c = format!("{:?}", c);
            put(format!("emit/{c}/backstop"), format!("{:?} {:?}", x.backstop, x.token));
            put(format!("emit/{c}/blnd"), format!("{:?}", x.blnd));
            put(format!("emit/{c}/swap"), format!("{:?}", x.swap));
            for (a, t) in &x.last {
                put(format!("emit/{c}/last/{:?}", a), t.to_string());
            }
            for a in &x.dropped {
                put(format!("emit/{c}/dropped/{:?}", a), "true".into());
            }
        }
        for (c, x) in &self.fact {
            let c = format!("{:?}", c);
            put(
                format!("fact/{c}/meta"),
                format!("{:?} {:?} {}", x.backstop, x.blnd, hex(&x.pool_hash)),
            );
            for a in &x.pools {
                put(format!("fact/{c}/pools/{:?}", a), "true".into());
            }
        }
        for (k, v) in &self.comet {
            put(format!("comet/{}", hex(k)), hex(v));
        }
        for ((c, k), v) in &self.other {
            put(format!("other/{:?}/{k}", c), v.clone());
        }
        m
    }

    pub fn diff(&self, o: &S) -> Vec<(String, String, String)> {
        let (a, b) = (self.flat(), o.flat());
        let mut out = vec![];
        for (k, v) in &a {
            match b.get(k) {
                Some(w) if w == v => {}
                Some(w) => out.push((k.clone(), v.clone(), w.clone())),
                None => out.push((k.clone(), v.clone(), "-".into())),
            }
        }
        for (k, w) in &b {
            if !a.contains_key(k) {
                out.push((k.clone(), "-".into(), w.clone()));
            }
        }
        out
    }

    pub fn bal(&self, t: &Addr, a: &Addr) -> i128 {
        *self.tok.get(&(*t, *a)).unwrap_or(&0)
    }
}
