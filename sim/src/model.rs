//! Reference model: what every operation must do, written from the protocol's rules, independently of the
//! contracts' control flow. It is stateless: each transaction is predicted from the decoded durable state
//! before it, so a divergence is localised to the single operation that caused it.

use crate::exec::Ev;
use crate::natives::OracleSt;
use crate::state::*;
use crate::sv::*;
use soroban_env_host::xdr::ScVal;
use std::collections::{BTreeMap, BTreeSet};

pub const S7: i128 = 10_000_000;
pub const S9: i128 = 1_000_000_000;
pub const WEEK: u64 = 604_800;
pub const DAY: u64 = 86_400;

#[derive(Clone, Debug)]
pub struct Rej {
    pub why: String,
    pub props: Vec<&'static str>,
}
pub type R<T> = Result<T, Rej>;
pub fn rej<T>(why: &str, props: &[&'static str]) -> R<T> {
    Err(Rej {
        why: why.to_string(),
        props: props.to_vec(),
    })
}
pub fn math<T>() -> R<T> {
    rej("arithmetic out of range", &[])
}

pub fn mdf(x: i128, y: i128, z: i128) -> R<i128> {
    let r = match x.checked_mul(y) {
        Some(r) => r,
        None => return math(),
    };
    if z == 0 {
        return math();
    }
    if r < 0 || (r > 0 && z < 0) {
        Ok(r / z - if r.rem_euclid(z) > 0 { 1 } else { 0 })
    } else {
        Ok(r / z)
    }
}
pub fn mdc(x: i128, y: i128, z: i128) -> R<i128> {
    let r = match x.checked_mul(y) {
        Some(r) => r,
        None => return math(),
    };
    if z == 0 {
        return math();
    }
    if r <= 0 || (r > 0 && z < 0) {
        Ok(r / z)
    } else {
        Ok(r / z + if r.rem_euclid(z) > 0 { 1 } else { 0 })
    }
}
fn add(a: i128, b: i128) -> R<i128> {
    a.checked_add(b).map(Ok).unwrap_or_else(math)
}
fn sub(a: i128, b: i128) -> R<i128> {
    a.checked_sub(b).map(Ok).unwrap_or_else(math)
}
fn mul(a: i128, b: i128) -> R<i128> {
    a.checked_mul(b).map(Ok).unwrap_or_else(math)
}

/// What the model may look at besides the decoded state.
pub struct Ctx<'a> {
    pub oracles: &'a BTreeMap<Addr, OracleSt>,
    pub signers: &'a [Addr],
    pub down: Option<Addr>,
    pub blnd_admin: Addr,
    pub pool_hash: Vec<u8>,
    /// single-sided join of the real liquidity pool, evaluated on the pre-state without committing
    pub quote: &'a dyn Fn(&Addr, i128) -> Option<i128>,
    /// the liquidity pool's address (its share token is the backstop token)
    pub comet: Addr,
    /// address assigned to a newly deployed pool (observed)
    pub deployed: Option<Addr>,
    /// (deployer, salt) pairs the factory has already used
    pub salts: &'a BTreeSet<(Addr, Addr, Vec<u8>)>,
    pub kind: &'a dyn Fn(&Addr) -> Kind,
}

#[derive(Clone, Debug)]
pub struct Res {
    pub asset: Addr,
    pub cfg: ResCfg,
    pub d: ResData,
    pub scalar: i128,
}

impl Res {
    pub fn from_d(&self, d: i128) -> R<i128> {
        mdc(d, self.d.d_rate, S9)
    }
    pub fn from_b(&self, b: i128) -> R<i128> {
        mdf(b, self.d.b_rate, S9)
    }
    pub fn d_up(&self, a: i128) -> R<i128> {
        mdc(a, S9, self.d.d_rate)
    }
    pub fn d_down(&self, a: i128) -> R<i128> {
        mdf(a, S9, self.d.d_rate)
    }
    pub fn b_up(&self, a: i128) -> R<i128> {
        mdc(a, S9, self.d.b_rate)
    }
    pub fn b_down(&self, a: i128) -> R<i128> {
        mdf(a, S9, self.d.b_rate)
    }
    pub fn util(&self) -> R<i128> {
        mdc(self.from_d(self.d.d_supply)?, S7, self.from_b(self.d.b_supply)?)
    }
    pub fn eff_coll(&self, b: i128) -> R<i128> {
        mdf(self.from_b(b)?, self.cfg.c_factor as i128, S7)
    }
    pub fn eff_liab(&self, d: i128) -> R<i128> {
        mdc(self.from_d(d)?, S7, self.cfg.l_factor as i128)
    }
    /// apply the interest of the time since the last accrual
    pub fn accrue(&mut self, now: u64, take: u32) -> R<()> {
        if self.d.last_time == now {
            return Ok(());
        }
        let last = self.d.last_time;
        self.d.last_time = now;
        if self.d.b_supply == 0 {
            return Ok(());
        }
        let u = self.util()?;
        if u == 0 {
            return Ok(());
        }
        if now < last {
            return math();
        }
        let c = &self.cfg;
        let t = c.util as i128;
        let (base, r1, r2, r3) = (c.r_base as i128, c.r_one as i128, c.r_two as i128, c.r_three as i128);
        let m = self.d.ir_mod;
        let kink = 9_500_000;
        let ir = if u <= t {
            mdc(mdc(mdc(u, S7, t)?, r1, S7)? + base, m, S9)?
        } else if u <= kink {
            mdc(mdc(mdc(u - t, S7, kink - t)?, r2, S7)? + r1 + base, m, S9)?
        } else {
            mdc(mdc(u - kink, S7, 500_000)?, r3, S7)? + mdc(m, r2 + r1 + base, S9)?
        };
        let dts = (now - last) as i128 * S9;
        let ud = (u - t) * 100;
        self.d.ir_mod = if ud >= 0 {
            (m + mdf(mdf(dts, ud, S9)?, c.reactivity as i128, S7)?).min(10 * S9)
        } else {
            (m + mdc(mdc(dts, ud, S9)?, c.reactivity as i128, S7)?).max(S9 / 10)
        };
        let growth = S9 + mdc(dts / 31_536_000, mul(ir, 100)?, S9)?;
        let liab0 = self.from_d(self.d.d_supply)?;
        let sup0 = self.from_b(self.d.b_supply)?;
        self.d.d_rate = mdc(growth, self.d.d_rate, S9)?;
        let accrued = self.from_d(self.d.d_supply)? - liab0;
        if accrued > 0 {
            let credit = mdf(accrued, take as i128, S7)?;
            self.d.credit = add(self.d.credit, credit)?;
            self.d.b_rate = mdf(sup0 + accrued - credit, S9, self.d.b_supply)?;
        }
        Ok(())
    }
}

/// in-flight view of one lending pool within one transaction
struct PTx {
    p: Addr,
    cache: BTreeMap<Addr, Res>,
    store: Vec<Addr>,
    prices: BTreeMap<Addr, i128>,
}

#[derive(Default, Debug, Clone)]
pub struct PosVal {
    pub cb: i128,
    pub cr: i128,
    pub lb: i128,
    pub lr: i128,
    pub sc: i128,
}
impl PosVal {
    pub fn hf(&self) -> R<i128> {
        mdf(self.cb, self.sc, self.lb)
    }
    pub fn under(&self, min: i128) -> R<bool> {
        if self.lb == 0 {
            return Ok(false);
        }
        Ok(self.hf()? < mdf(self.sc, min, S7)?)
    }
    pub fn over(&self, max: i128) -> R<bool> {
        if self.lb == 0 {
            return Ok(true);
        }
        Ok(self.hf()? > mdc(self.sc, max, S7)?)
    }
}

pub struct PoolData {
    pub tokens: i128,
    pub q4w_pct: i128,
    pub blnd: i128,
    pub usdc: i128,
}

pub struct M<'a> {
    pub s: S,
    pub c: &'a Ctx<'a>,
    pub auths: BTreeSet<Addr>,
    pub uses: BTreeSet<Addr>,
    pub valued: bool,
    pub notes: Vec<&'static str>,
    /// what the contracts report
    pub evs: Vec<Ev>,
}

pub fn two(a: i128, b: i128) -> ScVal {
    vecv(vec![i128v(a), i128v(b)])
}

pub const NEG: &str = "amount below zero";

impl<'a> M<'a> {
    pub fn new(s: S, c: &'a Ctx<'a>) -> M<'a> {
        M { s, c, auths: BTreeSet::new(), uses: BTreeSet::new(), valued: false, notes: vec![], evs: vec![] }
    }
    pub fn ev(&mut self, from: &Addr, name: &str, topics: Vec<ScVal>, data: ScVal) {
        let mut t = vec![sym(name)];
        t.extend(topics);
        self.evs.push(Ev { from: *from, topics: t, data });
    }
    pub fn auth(&mut self, a: &Addr) -> R<()> {
        self.auths.insert(*a);
        if self.c.signers.contains(a) {
            Ok(())
        } else {
            rej("missing authorisation", &["C13"])
        }
    }
    pub fn dep(&mut self, a: &Addr, props: &[&'static str]) -> R<()> {
        self.uses.insert(*a);
        if self.c.down == Some(*a) {
            return rej("dependency down", props);
        }
        Ok(())
    }
    pub fn nonneg(&self, x: i128, props: &[&'static str]) -> R<()> {
        if x < 0 {
            return rej(NEG, props);
        }
        Ok(())
    }
    pub fn now(&self) -> u64 {
        self.s.ts
    }

    // ---------------------------------------------------------------- tokens
    pub fn xfer(&mut self, t: &Addr, from: &Addr, to: &Addr, amt: i128) -> R<()> {
        self.dep(t, &["C16"])?;
        if amt < 0 {
            return rej("negative transfer", &["C16"]);
        }
        let f = self.s.bal(t, from);
        if f < amt {
            return rej("transfer exceeds balance", &["C16", "C01", "C17"]);
        }
        self.set_bal(t, from, f - amt);
        let x = add(self.s.bal(t, to), amt)?;
        self.set_bal(t, to, x);
        Ok(())
    }
    pub fn set_bal(&mut self, t: &Addr, a: &Addr, x: i128) {
        if x == 0 {
            self.s.tok.remove(&(*t, *a));
        } else {
            self.s.tok.insert((*t, *a), x);
        }
    }
    pub fn xfer_from(&mut self, t: &Addr, spender: &Addr, from: &Addr, to: &Addr, amt: i128) -> R<()> {
        self.dep(t, &["C16"])?;
        let k = (*t, *from, *spender);
        let (cur, exp) = match self.s.allow.get(&k) {
            Some(x) => *x,
            None => return rej("no allowance", &["C15", "C16"]),
        };
        if exp < self.s.seq || cur < amt {
            return rej("allowance too small or expired", &["C15", "C16"]);
        }
        if amt > 0 {
            self.s.allow.insert(k, (cur - amt, exp));
        }
        self.xfer(t, from, to, amt)
    }
    pub fn approve(&mut self, t: &Addr, from: &Addr, spender: &Addr, amt: i128, exp: u32) -> R<()> {
        self.dep(t, &["C16"])?;
        if amt < 0 {
            return rej("negative allowance", &[]);
        }
        self.s.allow.insert((*t, *from, *spender), (amt, exp));
        Ok(())
    }
    pub fn mint_blnd(&mut self, emitter: &Addr, t: &Addr, to: &Addr, amt: i128) -> R<()> {
        self.dep(t, &["C16"])?;
        if self.c.blnd_admin != *emitter {
            return rej("emitter is not the BLND admin", &["C13", "C21"]);
        }
        if amt < 0 {
            return rej("negative mint", &["C21"]);
        }
        let x = add(self.s.bal(t, to), amt)?;
        self.set_bal(t, to, x);
        Ok(())
    }

    // ---------------------------------------------------------------- lending pool
    pub fn pool(&self, p: &Addr) -> R<&PoolS> {
        match self.s.pools.get(p) {
            Some(x) => Ok(x),
            None => rej("not an initialised pool", &["C23"]),
        }
    }
    pub fn pm(&mut self, p: &Addr) -> &mut PoolS {
        self.s.pools.get_mut(p).unwrap()
    }
    fn ptx(&self, p: &Addr) -> PTx {
        PTx {
            p: *p,
            cache: BTreeMap::new(),
            store: vec![],
            prices: BTreeMap::new(),
        }
    }
    fn load(&mut self, x: &mut PTx, asset: &Addr, store: bool) -> R<Res> {
        let now = self.now();
        let pl = self.pool(&x.p)?;
        if store && !x.store.contains(asset) {
            x.store.push(*asset);
        }
        if let Some(r) = x.cache.get(asset) {
            return Ok(r.clone());
        }
        let (cfg, d) = match (pl.cfg.get(asset), pl.data.get(asset)) {
            (Some(c), Some(d)) => (c.clone(), d.clone()),
            _ => return rej("no such reserve", &["C03", "C14"]),
        };
        let take = pl.bstop_rate;
        let mut r = Res {
            asset: *asset,
            scalar: 10i128.pow(cfg.decimals),
            cfg,
            d,
        };
        r.accrue(now, take)?;
        Ok(r)
    }
    fn cache(&self, x: &mut PTx, r: Res) {
        x.cache.insert(r.asset, r);
    }
    /// apply interest up to now to every reserve
    pub fn accrue_all(&mut self, p: &Addr) -> R<()> {
        let mut x = self.ptx(p);
        for a in self.pool(p)?.res_list.clone() {
            let r = self.load(&mut x, &a, true)?;
            self.cache(&mut x, r);
        }
        self.store_reserves(&x)
    }
    fn store_reserves(&mut self, x: &PTx) -> R<()> {
        for a in &x.store {
            let r = match x.cache.get(a) {
                Some(r) => r,
                None => return rej("reserve not cached", &[]),
            };
            self.pm(&x.p).data.insert(*a, r.d.clone());
        }
        Ok(())
    }
    fn oracle_scalar(&mut self, x: &PTx) -> R<i128> {
        let o = self.pool(&x.p)?.oracle;
        self.valued = true;
        self.dep(&o, &["C08", "C16"])?;
        match self.c.oracles.get(&o) {
            Some(st) => Ok(10i128.pow(st.decimals)),
            None => rej("oracle does not exist", &["C08"]),
        }
    }
    fn price(&mut self, x: &mut PTx, asset: &Addr) -> R<i128> {
        if let Some(p) = x.prices.get(asset) {
            return Ok(*p);
        }
        let o = self.pool(&x.p)?.oracle;
        self.dep(&o, &["C08", "C16"])?;
        let now = self.now();
        let pr = self.c.oracles.get(&o).and_then(|st| st.prices.get(asset));
        let (price, ts) = match pr.and_then(|p| p.ts(now).map(|t| (p.price, t))) {
            Some(v) => v,
            None => return rej("price missing", &["C08"]),
        };
        if ts + DAY < now {
            return rej("price older than 24 hours", &["C08"]);
        }
        x.prices.insert(*asset, price);
        Ok(price)
    }
    fn value(&mut self, x: &mut PTx, pos: &Pos) -> R<PosVal> {
        let mut v = PosVal {
            sc: self.oracle_scalar(x)?,
            ..Default::default()
        };
        let list = self.pool(&x.p)?.res_list.clone();
        for (i, asset) in list.iter().enumerate() {
            let b = *pos.coll.get(&(i as u32)).unwrap_or(&0);
            let d = *pos.liab.get(&(i as u32)).unwrap_or(&0);
            if b == 0 && d == 0 {
                continue;
            }
            let r = self.load(x, asset, false)?;
            let pr = self.price(x, asset)?;
            if b > 0 {
                v.cb = add(v.cb, mdf(pr, r.eff_coll(b)?, r.scalar)?)?;
                v.cr = add(v.cr, mdf(pr, r.from_b(b)?, r.scalar)?)?;
            }
            if d > 0 {
                v.lb = add(v.lb, mdc(pr, r.eff_liab(d)?, r.scalar)?)?;
                v.lr = add(v.lr, mdc(pr, r.from_d(d)?, r.scalar)?)?;
            }
            self.cache(x, r);
        }
        Ok(v)
    }

    /// credit emissions of one reserve side up to now, and to `user` for `balance`
    fn emit_side(&mut self, p: &Addr, id: u32, supply: i128, scalar: i128) -> R<Option<i128>> {
        let now = self.now();
        let pl = self.pm(p);
        let (exp, eps) = match pl.ecfg.get(&id) {
            Some(c) => *c,
            None => return Ok(None),
        };
        let (idx, last) = match pl.edata.get(&id) {
            Some(d) => *d,
            None => return rej("emission data missing", &["C15"]),
        };
        if last >= exp || now == last || eps == 0 || supply == 0 {
            return Ok(Some(idx));
        }
        let to = now.min(exp);
        if to < last {
            return math();
        }
        let add_idx = mdf((to - last) as i128 * eps as i128, scalar, supply)?;
        pl.edata.insert(id, (idx + add_idx, to));
        Ok(Some(idx + add_idx))
    }
    fn emit_user(&mut self, p: &Addr, id: u32, idx: i128, scalar: i128, u: &Addr, bal: i128, claim: bool) -> R<i128> {
        let rec = self.pm(p).uemis.get(&(*u, id)).cloned();
        let accrued = match rec {
            Some((ui, acc)) => {
                if ui == idx && !claim {
                    return Ok(0);
                }
                if bal != 0 {
                    if idx < ui {
                        return rej("emission index moved back", &["C15"]);
                    }
                    add(acc, mdf(bal, idx - ui, scalar)?)?
                } else {
                    acc
                }
            }
            None => {
                if bal == 0 {
                    0
                } else {
                    mdf(bal, idx, scalar)?
                }
            }
        };
        self.pm(p)
            .uemis
            .insert((*u, id), (idx, if claim { 0 } else { accrued }));
        Ok(if claim { accrued } else { 0 })
    }
    fn d_emis(&mut self, p: &Addr, u: &Addr, r: &Res, bal: i128) -> R<()> {
        let id = r.cfg.index * 2;
        if let Some(idx) = self.emit_side(p, id, r.d.d_supply, r.scalar)? {
            self.emit_user(p, id, idx, r.scalar, u, bal, false)?;
        }
        Ok(())
    }
    fn b_emis(&mut self, p: &Addr, u: &Addr, r: &Res, pos: &Pos) -> R<()> {
        let id = r.cfg.index * 2 + 1;
        let i = r.cfg.index;
        let bal = pos.coll.get(&i).unwrap_or(&0) + pos.supp.get(&i).unwrap_or(&0);
        if let Some(idx) = self.emit_side(p, id, r.d.b_supply, r.scalar)? {
            self.emit_user(p, id, idx, r.scalar, u, bal, false)?;
        }
        Ok(())
    }
    fn chg_liab(&mut self, p: &Addr, u: &Addr, pos: &mut Pos, r: &mut Res, amt: i128, plus: bool) -> R<()> {
        if amt == 0 {
            return rej("no debt shares change hands", &["C03", "C10"]);
        }
        let cur = *pos.liab.get(&r.cfg.index).unwrap_or(&0);
        self.d_emis(p, u, r, cur)?;
        Self::chg(&mut pos.liab, r.cfg.index, amt, plus)?;
        r.d.d_supply = if plus { add(r.d.d_supply, amt)? } else { sub(r.d.d_supply, amt)? };
        Ok(())
    }
    fn chg_b(&mut self, p: &Addr, u: &Addr, pos: &mut Pos, r: &mut Res, amt: i128, coll: bool, plus: bool) -> R<()> {
        if amt == 0 {
            return rej("no supply shares change hands", &["C03", "C10"]);
        }
        self.b_emis(p, u, r, pos)?;
        let m = if coll { &mut pos.coll } else { &mut pos.supp };
        Self::chg(m, r.cfg.index, amt, plus)?;
        r.d.b_supply = if plus { add(r.d.b_supply, amt)? } else { sub(r.d.b_supply, amt)? };
        Ok(())
    }
    fn chg(m: &mut BTreeMap<u32, i128>, i: u32, amt: i128, plus: bool) -> R<()> {
        let cur = *m.get(&i).unwrap_or(&0);
        let n = if plus { add(cur, amt)? } else { cur - amt };
        if n < 0 {
            return rej("balance would go below zero", &["C02", "C10"]);
        }
        if n == 0 {
            m.remove(&i);
        } else {
            m.insert(i, n);
        }
        Ok(())
    }
    fn move_pos(
        &mut self,
        x: &mut PTx,
        u: &Addr,
        pos: &mut Pos,
        coll: &BTreeMap<Addr, i128>,
        liab: &BTreeMap<Addr, i128>,
        plus: bool,
    ) -> R<()> {
        let p = x.p;
        for (a, amt) in coll {
            let mut r = self.load(x, a, true)?;
            self.chg_b(&p, u, pos, &mut r, *amt, true, plus)?;
            self.cache(x, r);
        }
        for (a, amt) in liab {
            let mut r = self.load(x, a, true)?;
            self.chg_liab(&p, u, pos, &mut r, *amt, plus)?;
            self.cache(x, r);
        }
        Ok(())
    }
    pub fn get_pos(&self, p: &Addr, u: &Addr) -> Pos {
        self.s
            .pools
            .get(p)
            .and_then(|x| x.pos.get(u))
            .cloned()
            .unwrap_or_default()
    }
    fn put_pos(&mut self, p: &Addr, u: &Addr, pos: &Pos) {
        if pos.is_empty() {
            self.pm(p).pos.remove(u);
        } else {
            self.pm(p).pos.insert(*u, pos.clone());
        }
    }

    /// current valuation of an account (generator and probes)
    pub fn user_value(&mut self, p: &Addr, u: &Addr) -> R<PosVal> {
        let mut x = self.ptx(p);
        let pos = self.get_pos(p, u);
        self.value(&mut x, &pos)
    }
    /// a reserve with interest applied up to now (generator and probes)
    pub fn fresh(&mut self, p: &Addr, a: &Addr) -> R<Res> {
        let mut x = self.ptx(p);
        self.load(&mut x, a, false)
    }

    pub fn submit(&mut self, p: &Addr, from: &Addr, spender: &Addr, to: &Addr, reqs: &[(u32, Addr, i128)]) -> R<Pos> {
        self.auth(spender)?;
        self.auth(from)?;
        if from == p || spender == p || to == p {
            return rej("pool is not a user", &["C02", "C03"]);
        }
        let pl = self.pool(p)?;
        let (status, maxp, bstop) = (pl.status, pl.max_positions, pl.backstop);
        let mut x = self.ptx(p);
        let mut pos = self.get_pos(p, from);
        let before = pos.count();
        let mut pays: BTreeMap<Addr, i128> = BTreeMap::new();
        let mut gets: BTreeMap<Addr, i128> = BTreeMap::new();
        let mut health = false;
        for (ty, a, amt) in reqs {
            let (ty, amt) = (*ty, *amt);
            self.nonneg(amt, &["C03"])?;
            if status > 1 && (ty == 4 || ty == 9) {
                return rej("pool status forbids borrowing and cancelling", &["C07"]);
            }
            if status > 3 && (ty == 0 || ty == 2) {
                return rej("pool status forbids supplying", &["C07"]);
            }
            match ty {
                0 | 2 => {
                    let mut r = self.load(&mut x, a, true)?;
                    let b = r.b_down(amt)?;
                    self.chg_b(p, from, &mut pos, &mut r, b, ty == 2, true)?;
                    *pays.entry(*a).or_insert(0) += amt;
                    self.cache(&mut x, r);
                    self.ev(p, if ty == 2 { "supply_collateral" } else { "supply" }, vec![addr(a), addr(from)], two(amt, b));
                }
                1 | 3 => {
                    let mut r = self.load(&mut x, a, true)?;
                    let m = if ty == 3 { &pos.coll } else { &pos.supp };
                    let cur = *m.get(&r.cfg.index).unwrap_or(&0);
                    let mut b = r.b_up(amt)?;
                    let mut out = amt;
                    if b > cur {
                        b = cur;
                        out = r.from_b(cur)?;
                    }
                    self.chg_b(p, from, &mut pos, &mut r, b, ty == 3, false)?;
                    *gets.entry(*a).or_insert(0) += out;
                    health |= ty == 3;
                    self.cache(&mut x, r);
                    self.ev(p, if ty == 3 { "withdraw_collateral" } else { "withdraw" }, vec![addr(a), addr(from)], two(out, b));
                }
                4 => {
                    let mut r = self.load(&mut x, a, true)?;
                    let d = r.d_up(amt)?;
                    self.chg_liab(p, from, &mut pos, &mut r, d, true)?;
                    if r.util()? > r.cfg.max_util as i128 {
                        return rej("utilisation above the reserve's maximum", &["C06"]);
                    }
                    *gets.entry(*a).or_insert(0) += amt;
                    health = true;
                    self.cache(&mut x, r);
                    self.ev(p, "borrow", vec![addr(a), addr(from)], two(amt, d));
                }
                5 => {
                    let mut r = self.load(&mut x, a, true)?;
                    let cur = *pos.liab.get(&r.cfg.index).unwrap_or(&0);
                    let mut d = r.d_down(amt)?;
                    *pays.entry(*a).or_insert(0) += amt;
                    let mut paid = amt;
                    if d > cur {
                        let refund = amt - r.from_d(cur)?;
                        self.nonneg(refund, &["C03"])?;
                        d = cur;
                        paid -= refund;
                        *gets.entry(*a).or_insert(0) += refund;
                    }
                    self.chg_liab(p, from, &mut pos, &mut r, d, false)?;
                    self.cache(&mut x, r);
                    self.ev(p, "repay", vec![addr(a), addr(from)], two(paid, d));
                }
                6 | 7 | 8 => {
                    if amt > u64::MAX as i128 {
                        return rej("a fill of more than 100 percent", &["C10"]);
                    }
                    self.fill(&mut x, ty - 6, a, from, &mut pos, amt as u64, &bstop)?;
                    health |= ty != 8;
                    self.ev(p, "fill_auction", vec![addr(a), u32v(ty - 6)], vecv(vec![addr(from), i128v(amt)]));
                }
                9 => {
                    if self.pm(p).auctions.remove(&(0, *from)).is_none() {
                        return rej("no auction to cancel", &["C10"]);
                    }
                    health = true;
                    self.ev(p, "delete_liquidation_auction", vec![addr(from)], ScVal::Void);
                }
                _ => return rej("unknown request", &["C03"]),
            }
        }
        if pos.count() > before && pos.count() > maxp {
            return rej("too many positions", &["C06"]);
        }
        if health && !pos.liab.is_empty() {
            let v = self.value(&mut x, &pos)?;
            if v.under(10_000_100)? {
                return rej("account would be under-collateralised", &["C05"]);
            }
        }
        for (a, amt) in &pays {
            self.xfer(a, spender, p, *amt)?;
        }
        self.store_reserves(&x)?;
        self.put_pos(p, from, &pos);
        for (a, amt) in &gets {
            self.xfer(a, p, to, *amt)?;
        }
        Ok(pos)
    }

    pub fn scale(a: &Auction, seq: u32, pct: u64) -> R<(Auction, Auction)> {
        if pct == 0 || pct > 100 {
            return rej("fill percentage out of range", &["C10"]);
        }
        if seq < a.block {
            return rej("auction has not started", &["C10"]);
        }
        let n = (seq - a.block) as i128;
        let (lm, bm) = if n <= 200 {
            (n * 50_000, S7)
        } else if n < 400 {
            (S7, S7 - (n - 200) * 50_000)
        } else {
            (S7, 0)
        };
        let pc = pct as i128 * 100_000;
        let mut fill = Auction { block: a.block, ..Default::default() };
        let mut rest = fill.clone();
        for (t, amt) in &a.bid {
            let base = mdc(*amt, pc, S7)?;
            if amt - base > 0 {
                rest.bid.insert(*t, amt - base);
            }
            let f = mdc(base, bm, S7)?;
            if f > 0 {
                fill.bid.insert(*t, f);
            }
        }
        for (t, amt) in &a.lot {
            let base = mdf(*amt, pc, S7)?;
            if amt - base > 0 {
                rest.lot.insert(*t, amt - base);
            }
            let f = mdf(base, lm, S7)?;
            if f > 0 {
                fill.lot.insert(*t, f);
            }
        }
        Ok((fill, rest))
    }

    #[allow(clippy::too_many_arguments)]
    fn fill(&mut self, x: &mut PTx, kind: u32, user: &Addr, filler: &Addr, pos: &mut Pos, pct: u64, bstop: &Addr) -> R<()> {
        let p = x.p;
        if user == filler {
            return rej("nobody fills their own auction", &["C10", "C13"]);
        }
        let a = match self.pool(&p)?.auctions.get(&(kind, *user)) {
            Some(a) => a.clone(),
            None => return rej("no such auction", &["C10"]),
        };
        let (f, rest) = Self::scale(&a, self.s.seq, pct)?;
        match kind {
            0 => {
                let mut up = self.get_pos(&p, user);
                self.move_pos(x, user, &mut up, &f.lot, &f.bid, false)?;
                self.move_pos(x, filler, pos, &f.lot, &f.bid, true)?;
                self.put_pos(&p, user, &up);
            }
            1 => {
                if filler == bstop {
                    return rej("the backstop does not fill", &["C11"]);
                }
                let none = BTreeMap::new();
                let mut bp = self.get_pos(&p, bstop);
                self.move_pos(x, bstop, &mut bp, &none, &f.bid, false)?;
                self.move_pos(x, filler, pos, &none, &f.bid, true)?;
                let tok = self.bs(bstop)?.token;
                let lot = *f.lot.get(&tok).unwrap_or(&0);
                self.draw(bstop, &p, lot, filler)?;
                if !bp.liab.is_empty() {
                    let pd = self.pool_data(bstop, &p)?;
                    if Self::threshold(&pd) < 3 {
                        let list = self.pool(&p)?.res_list.clone();
                        let burn: BTreeMap<Addr, i128> =
                            bp.liab.iter().map(|(i, v)| (list[*i as usize], *v)).collect();
                        self.move_pos(x, bstop, &mut bp, &none, &burn, false)?;
                        for (a, amt) in &burn {
                            self.ev(&p, "bad_debt", vec![addr(bstop)], vecv(vec![addr(a), i128v(*amt)]));
                        }
                        self.notes.push("write_off");
                    }
                }
                self.put_pos(&p, bstop, &bp);
            }
            _ => {
                if filler == bstop {
                    return rej("the backstop does not fill", &["C12"]);
                }
                let tok = self.bs(bstop)?.token;
                let bid = *f.bid.get(&tok).unwrap_or(&0);
                self.donate(bstop, filler, &p, bid)?;
                for (asset, amt) in &f.lot {
                    let mut r = self.load(x, asset, true)?;
                    r.d.credit -= amt;
                    if r.d.credit < 0 {
                        return rej("backstop credit below zero", &["C12"]);
                    }
                    self.cache(x, r);
                    self.xfer(asset, &p, filler, *amt)?;
                }
            }
        }
        let pl = self.pm(&p);
        if rest.bid.is_empty() && rest.lot.is_empty() {
            pl.auctions.remove(&(kind, *user));
        } else {
            pl.auctions.insert((kind, *user), rest);
        }
        Ok(())
    }

    pub fn bad_debt(&mut self, p: &Addr, u: &Addr) -> R<()> {
        let b = self.pool(p)?.backstop;
        if *u == b {
            return rej("the backstop's debt stays", &["C11"]);
        }
        let mut up = self.get_pos(p, u);
        if !up.coll.is_empty() || up.liab.is_empty() {
            return rej("not bad debt", &["C11", "C13"]);
        }
        let mut bp = self.get_pos(p, &b);
        let mut x = self.ptx(p);
        let list = self.pool(p)?.res_list.clone();
        for (i, amt) in up.liab.clone() {
            let mut r = self.load(&mut x, &list[i as usize], true)?;
            self.chg_liab(p, &b, &mut bp, &mut r, amt, true)?;
            self.chg_liab(p, u, &mut up, &mut r, amt, false)?;
            self.cache(&mut x, r);
            self.ev(p, "bad_debt", vec![addr(u)], vecv(vec![addr(&list[i as usize]), i128v(amt)]));
        }
        self.store_reserves(&x)?;
        self.put_pos(p, &b, &bp);
        self.put_pos(p, u, &up);
        Ok(())
    }

    pub fn new_liq(&mut self, p: &Addr, u: &Addr, pct: u64) -> R<Auction> {
        let pl = self.pool(p)?;
        if u == p || *u == pl.backstop {
            return rej("pool and backstop are never liquidated", &["C09"]);
        }
        if pl.auctions.contains_key(&(0, *u)) {
            return rej("liquidation already open", &["C09"]);
        }
        if pct == 0 || pct > 100 {
            return rej("percentage out of range", &["C09"]);
        }
        let mut pos = self.get_pos(p, u);
        let mut x = self.ptx(p);
        let v = self.value(&mut x, &pos)?;
        if v.lb < v.cb {
            return rej("account is not underwater", &["C09", "C13"]);
        }
        let ps = pct as i128 * v.sc / 100;
        let cf = mdf(v.cb, v.sc, v.cr)?;
        let lf = mdf(v.lb, v.sc, v.lr)?;
        let inc = mdc(v.sc - mdc(cf, v.sc, lf)?, v.sc, 2 * v.sc)? + v.sc;
        let est = mdf(mdf(v.lr, ps, v.sc)?, inc, v.sc)?;
        let ep = mdc(est, v.sc, v.cr)?.min(v.sc);
        let list = self.pool(p)?.res_list.clone();
        let mut a = Auction { block: self.s.seq + 1, ..Default::default() };
        for (i, amt) in &pos.coll {
            a.lot.insert(list[*i as usize], mdc(*amt, ep, v.sc)?);
        }
        for (i, amt) in &pos.liab {
            a.bid.insert(list[*i as usize], mdc(*amt, ps, v.sc)?);
        }
        if pct == 100 {
            if est < v.cr {
                return rej("full liquidation takes too much", &["C09"]);
            }
        } else {
            self.move_pos(&mut x, u, &mut pos, &a.lot, &a.bid, false)?;
            let n = self.value(&mut x, &pos)?;
            if n.over(11_500_000)? {
                return rej("liquidation too large", &["C09"]);
            }
            if n.under(10_300_000)? {
                return rej("liquidation too small", &["C09"]);
            }
        }
        self.pm(p).auctions.insert((0, *u), a.clone());
        Ok(a)
    }

    fn lp_price(&mut self, b: &Addr, p: &Addr, osc: i128) -> R<(i128, i128)> {
        let pd = self.pool_data(b, p)?;
        let v = mul(mdf(pd.usdc, osc, S7)?, 5)?;
        if pd.tokens == 0 {
            self.notes.push("empty_backstop");
        }
        Ok((mdf(v, S7, pd.tokens)?, pd.tokens))
    }

    pub fn new_bad_debt(&mut self, p: &Addr) -> R<Auction> {
        let b = self.pool(p)?.backstop;
        if self.pool(p)?.auctions.contains_key(&(1, b)) {
            return rej("bad debt auction already open", &["C11"]);
        }
        let mut x = self.ptx(p);
        let osc = self.oracle_scalar(&x)?;
        let bp = self.get_pos(p, &b);
        let list = self.pool(p)?.res_list.clone();
        let mut a = Auction { block: self.s.seq + 1, ..Default::default() };
        let mut debt = 0;
        for (i, amt) in &bp.liab {
            let asset = list[*i as usize];
            let r = self.load(&mut x, &asset, false)?;
            let pr = self.price(&mut x, &asset)?;
            debt = add(debt, mdf(pr, r.from_d(*amt)?, r.scalar)?)?;
            a.bid.insert(asset, *amt);
        }
        if a.bid.is_empty() || debt == 0 {
            return rej("the backstop holds no debt of value", &["C11"]);
        }
        let tok = self.bs(&b)?.token;
        let (tv, tokens) = self.lp_price(&b, p, osc)?;
        let lot = mdf(mdf(debt, 14_000_000, S7)?, S7, tv)?.min(tokens);
        a.lot.insert(tok, lot);
        self.pm(p).auctions.insert((1, b), a.clone());
        Ok(a)
    }

    pub fn new_interest(&mut self, p: &Addr, assets: &[Addr]) -> R<Auction> {
        let b = self.pool(p)?.backstop;
        if self.pool(p)?.auctions.contains_key(&(2, b)) {
            return rej("interest auction already open", &["C12"]);
        }
        let mut x = self.ptx(p);
        let osc = self.oracle_scalar(&x)?;
        let mut a = Auction { block: self.s.seq + 1, ..Default::default() };
        let mut val = 0;
        for asset in assets {
            if a.lot.contains_key(asset) {
                continue;
            }
            let r = self.load(&mut x, asset, false)?;
            if r.d.credit > 0 {
                let pr = self.price(&mut x, asset)?;
                val = add(val, mdf(pr, r.d.credit, r.scalar)?)?;
                a.lot.insert(*asset, r.d.credit);
            }
        }
        if val <= 200 * osc {
            return rej("interest worth too little", &["C12"]);
        }
        let tok = self.bs(&b)?.token;
        let (tv, _) = self.lp_price(&b, p, osc)?;
        a.bid.insert(tok, mdf(mdf(val, 14_000_000, S7)?, S7, tv)?);
        self.pm(p).auctions.insert((2, b), a.clone());
        Ok(a)
    }

    pub fn threshold(pd: &PoolData) -> i128 {
        let (b, u) = (pd.blnd / S7, pd.usdc / S7);
        b.saturating_mul(b)
            .saturating_mul(b)
            .saturating_mul(b)
            .saturating_mul(u)
            .saturating_mul(S7)
            / 320_000_000_000_000_000_000_000_000i128
    }

    pub fn update_status(&mut self, p: &Addr) -> R<u32> {
        let pl = self.pool(p)?;
        let (st, b) = (pl.status, pl.backstop);
        let pd = self.pool_data(&b, p)?;
        let met = Self::threshold(&pd) >= S7;
        let q = pd.q4w_pct;
        let n = match st {
            4 | 6 => return rej("status is not the public's to change", &["C07", "C13"]),
            2 => {
                if q >= 7_500_000 {
                    5
                } else {
                    2
                }
            }
            0 => {
                if !met || q >= 5_000_000 {
                    3
                } else {
                    0
                }
            }
            _ => {
                if q >= 6_000_000 {
                    5
                } else if q >= 3_000_000 || !met {
                    3
                } else {
                    1
                }
            }
        };
        self.pm(p).status = n;
        Ok(n)
    }
    pub fn set_status(&mut self, p: &Addr, n: u32) -> R<()> {
        let (adm, b) = (self.pool(p)?.admin, self.pool(p)?.backstop);
        self.auth(&adm)?;
        let pd = self.pool_data(&b, p)?;
        let ok = match n {
            0 => Self::threshold(&pd) >= S7 && pd.q4w_pct < 5_000_000,
            2 | 3 => pd.q4w_pct < 7_500_000,
            4 => true,
            _ => return rej("no such status", &["C07"]),
        };
        if !ok {
            return rej("backstop does not allow this status", &["C07"]);
        }
        self.pm(p).status = n;
        Ok(())
    }

    pub fn pool_gulp(&mut self, p: &Addr) -> R<i128> {
        let b = self.pool(p)?.backstop;
        let new = self.gulp_pool_emissions(&b, p)?;
        if new < S7 {
            return rej("nothing to gulp", &["C15", "C20"]);
        }
        let now = self.now();
        let list = self.pool(p)?.res_list.clone();
        for (id, share) in self.pool(p)?.emis_share.clone() {
            let asset = list[(id / 2) as usize];
            let mut total = mdf(share as i128, new, S7)?;
            let pl = self.pool(p)?;
            if let Some((exp, eps)) = pl.ecfg.get(&id).cloned() {
                let d = &pl.data[&asset];
                let supply = if id % 2 == 0 { d.d_supply } else { d.b_supply };
                let sc = 10i128.pow(pl.cfg[&asset].decimals);
                self.emit_side(p, id, supply, sc)?;
                let pl = self.pm(p);
                let idx = pl.edata[&id].0;
                pl.edata.insert(id, (idx, now));
                if exp > now {
                    total += eps as i128 * (exp - now) as i128;
                }
            } else {
                self.pm(p).edata.insert(id, (0, now));
            }
            let eps = total / WEEK as i128;
            if eps > u64::MAX as i128 {
                return math();
            }
            self.pm(p).ecfg.insert(id, (now + WEEK, eps as u64));
            self.ev(p, "reserve_emission_update", vec![], vecv(vec![u32v(id), u64v(eps as u64), u64v(now + WEEK)]));
        }
        Ok(new)
    }
    pub fn set_emis(&mut self, p: &Addr, meta: &[(u32, u32, u64)]) -> R<()> {
        let adm = self.pool(p)?.admin;
        self.auth(&adm)?;
        let n = self.pool(p)?.res_list.len();
        let mut m = BTreeMap::new();
        let mut total = 0u128;
        for (i, t, sh) in meta {
            if *t > 1 || *i as usize >= n {
                return rej("no such reserve side", &["C15"]);
            }
            m.insert(i * 2 + t, *sh);
            total += *sh as u128;
        }
        if total > S7 as u128 {
            return rej("shares above 100 percent", &["C15"]);
        }
        self.pm(p).emis_share = m;
        Ok(())
    }
    pub fn pool_claim(&mut self, p: &Addr, from: &Addr, ids: &[u32], to: &Addr) -> R<i128> {
        self.auth(from)?;
        let pos = self.get_pos(p, from);
        let mut total = 0;
        for id in ids {
            let i = id / 2;
            let pl = self.pool(p)?;
            let asset = match pl.res_list.get(i as usize) {
                Some(a) => *a,
                None => return rej("no such reserve side", &["C15"]),
            };
            let d = &pl.data[&asset];
            let sc = 10i128.pow(pl.cfg[&asset].decimals);
            let (bal, supply) = if id % 2 == 0 {
                (*pos.liab.get(&i).unwrap_or(&0), d.d_supply)
            } else {
                (
                    pos.coll.get(&i).unwrap_or(&0) + pos.supp.get(&i).unwrap_or(&0),
                    d.b_supply,
                )
            };
            if let Some(idx) = self.emit_side(p, *id, supply, sc)? {
                total += self.emit_user(p, *id, idx, sc, from, bal, true)?;
            }
        }
        if total > 0 {
            let (b, t) = (self.pool(p)?.backstop, self.pool(p)?.blnd);
            self.xfer_from(&t, p, &b, to, total)?;
        }
        Ok(total)
    }

    fn valid_cfg(c: &ResCfg) -> bool {
        let s7 = S7 as u32;
        c.decimals <= 18
            && c.c_factor <= s7
            && c.l_factor <= s7
            && c.util <= 9_500_000
            && c.max_util <= s7
            && c.max_util > c.util
            && c.r_base < s7
            && c.r_base >= 1000
            && c.r_one <= c.r_two
            && c.r_two <= c.r_three
            && c.reactivity <= 1000
    }
    pub fn queue_reserve(&mut self, p: &Addr, asset: &Addr, c: &ResCfg) -> R<()> {
        let adm = self.pool(p)?.admin;
        self.auth(&adm)?;
        let now = self.now();
        let pl = self.pm(p);
        if pl.queued.contains_key(asset) {
            return rej("a change is already queued", &["C14"]);
        }
        if !Self::valid_cfg(c) {
            return rej("invalid reserve parameters", &["C14"]);
        }
        let unlock = if pl.status == 6 { now } else { now + WEEK };
        pl.queued.insert(*asset, (c.clone(), unlock));
        Ok(())
    }
    pub fn set_reserve(&mut self, p: &Addr, asset: &Addr) -> R<u32> {
        let now = self.now();
        let (c, unlock) = match self.pool(p)?.queued.get(asset) {
            Some(q) => q.clone(),
            None => return rej("nothing queued", &["C14", "C13"]),
        };
        if unlock > now {
            return rej("timelock not over", &["C14"]);
        }
        self.pm(p).queued.remove(asset);
        let index;
        if self.pool(p)?.cfg.contains_key(asset) {
            let mut x = self.ptx(p);
            let mut r = self.load(&mut x, asset, false)?;
            index = r.cfg.index;
            if r.cfg.decimals != c.decimals {
                return rej("decimals cannot change", &["C14"]);
            }
            let o = &r.cfg;
            if (o.r_base, o.r_one, o.r_two, o.r_three, o.util)
                != (c.r_base, c.r_one, c.r_two, c.r_three, c.util)
            {
                r.d.ir_mod = S9;
            }
            self.pm(p).data.insert(*asset, r.d);
        } else {
            let pl = self.pm(p);
            if pl.res_list.len() >= 32 {
                return rej("32 reserves at most", &["C14"]);
            }
            index = pl.res_list.len() as u32;
            pl.res_list.push(*asset);
            pl.data.insert(
                *asset,
                ResData {
                    b_rate: S9,
                    d_rate: S9,
                    ir_mod: S9,
                    last_time: now,
                    ..Default::default()
                },
            );
        }
        let mut c = c;
        c.index = index;
        self.pm(p).cfg.insert(*asset, c);
        Ok(index)
    }
}
