//! Reference model, part two: backstop, emitter, pool factory, tokens, and the dispatch from raw calls.

use crate::model::*;
use crate::ops::Tx;
use crate::state::*;
use crate::sv::*;
use soroban_env_host::xdr::{ScMap, ScMapEntry, ScVal};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    Void,
    Int(i128),
    U32(u32),
    U64(u64),
    Bool(bool),
    Addr(Addr),
    Pos(Pos),
    Auction(Auction),
    Q4w(i128, u64),
    Pair(i128, i128),
    UBal(UBal),
    PData(i128, i128, i128, i128),
    Swap(Option<(Addr, Addr, u64)>),
    /// not predicted
    Any,
}

impl Ret {
    pub fn matches(&self, v: &ScVal) -> bool {
        match self {
            Ret::Any => true,
            Ret::Void => matches!(v, ScVal::Void),
            Ret::Int(x) => as_i128(v) == Some(*x),
            Ret::U32(x) => as_u32(v) == Some(*x),
            Ret::U64(x) => matches!(v, ScVal::U64(y) if y == x),
            Ret::Bool(x) => as_bool(v) == Some(*x),
            Ret::Addr(x) => as_addr(v) == Some(*x),
            Ret::Pos(p) => pos_of(v) == *p,
            Ret::Auction(a) => auction_of(v) == *a,
            Ret::Q4w(a, e) => fi(v, "amount") == *a && fu64(v, "exp") == *e,
            Ret::Pair(a, b) => as_vec(v)
                .map(|x| x.len() == 2 && as_i128(&x[0]) == Some(*a) && as_i128(&x[1]) == Some(*b))
                .unwrap_or(false),
            Ret::UBal(u) => ubal_of(v) == *u,
            Ret::PData(t, q, b, u) => {
                (fi(v, "tokens"), fi(v, "q4w_pct"), fi(v, "blnd"), fi(v, "usdc")) == (*t, *q, *b, *u)
            }
            Ret::Swap(None) => matches!(v, ScVal::Void),
            Ret::Swap(Some((a, b, t))) => {
                field(v, "new_backstop").and_then(as_addr) == Some(*a)
                    && field(v, "new_backstop_token").and_then(as_addr) == Some(*b)
                    && fu64(v, "unlock_time") == *t
            }
        }
    }
}
pub fn ubal_of(v: &ScVal) -> UBal {
    UBal {
        shares: fi(v, "shares"),
        q4w: field(v, "q4w")
            .and_then(as_vec)
            .unwrap_or(&[])
            .iter()
            .map(|q| (fi(q, "amount"), fu64(q, "exp")))
            .collect(),
    }
}

fn swapv(s: &(Addr, Addr, u64)) -> ScVal {
    structv(vec![("new_backstop", addr(&s.0)), ("new_backstop_token", addr(&s.1)), ("unlock_time", u64v(s.2))])
}
fn auctionv(a: &Auction) -> ScVal {
    let m = |x: &BTreeMap<Addr, i128>| {
        let v: Vec<ScMapEntry> = x.iter().map(|(k, v)| ScMapEntry { key: addr(k), val: i128v(*v) }).collect();
        ScVal::Map(Some(ScMap(v.try_into().unwrap())))
    };
    structv(vec![("bid", m(&a.bid)), ("block", u32v(a.block)), ("lot", m(&a.lot))])
}

pub const DAY21: u64 = 21 * DAY;
pub const EPOCH: u64 = 1713139200;
const PC: i128 = 320_000_000_000_000_000_000_000_000;

impl PBal {
    pub fn to_shares(&self, t: i128) -> R<i128> {
        if self.shares == 0 {
            Ok(t)
        } else if self.tokens == 0 {
            rej("outstanding shares without tokens have no price", &["C17"])
        } else {
            mdf(t, self.shares, self.tokens)
        }
    }
    pub fn to_tokens(&self, sh: i128) -> R<i128> {
        if self.shares == 0 {
            Ok(sh)
        } else {
            mdf(sh, self.tokens, self.shares)
        }
    }
    pub fn active(&self) -> R<i128> {
        Ok(self.tokens - self.to_tokens(self.q4w)?)
    }
}

impl<'a> M<'a> {
    // ---------------------------------------------------------------- backstop
    pub fn bs(&mut self, b: &Addr) -> R<BackS> {
        self.dep(b, &["C16"])?;
        match self.s.back.get(b) {
            Some(x) => Ok(x.clone()),
            None => rej("not an initialised backstop", &["C23"]),
        }
    }
    pub fn bm(&mut self, b: &Addr) -> &mut BackS {
        self.s.back.get_mut(b).unwrap()
    }
    fn pb(&self, b: &Addr, p: &Addr) -> PBal {
        self.s.back[b].pbal.get(p).cloned().unwrap_or_default()
    }
    fn ub(&self, b: &Addr, p: &Addr, u: &Addr) -> UBal {
        self.s.back[b].ubal.get(&(*p, *u)).cloned().unwrap_or_default()
    }
    fn set_pb(&mut self, b: &Addr, p: &Addr, x: PBal) {
        if x == PBal::default() {
            self.bm(b).pbal.remove(p);
        } else {
            self.bm(b).pbal.insert(*p, x);
        }
    }
    fn set_ub(&mut self, b: &Addr, p: &Addr, u: &Addr, x: UBal) {
        if x == UBal::default() {
            self.bm(b).ubal.remove(&(*p, *u));
        } else {
            self.bm(b).ubal.insert((*p, *u), x);
        }
    }
    pub fn pool_data(&mut self, b: &Addr, p: &Addr) -> R<PoolData> {
        self.bs(b)?;
        let x = self.pb(b, p);
        let q = if x.shares > 0 { mdc(x.q4w, S7, x.shares)? } else { 0 };
        let (bl, us) = match self.s.back[b].lp_val {
            Some(v) => v,
            None => return rej("backstop token value never updated", &[]),
        };
        Ok(PoolData {
            tokens: x.tokens,
            q4w_pct: q,
            blnd: mdf(x.tokens, bl, S7)?,
            usdc: mdf(x.tokens, us, S7)?,
        })
    }
    fn require_pool(&mut self, b: &Addr, p: &Addr) -> R<()> {
        if self.pb(b, p).shares == 0 {
            let f = self.s.back[b].factory;
            self.dep(&f, &["C16"])?;
            let ok = self.s.fact.get(&f).map(|x| x.pools.contains(p)).unwrap_or(false);
            if !ok {
                return rej("not a pool of the factory", &["C23"]);
            }
        }
        Ok(())
    }
    /// stream of one pool's backstop emissions up to now; None when it never had any
    fn b_emit_pool(&mut self, b: &Addr, p: &Addr) -> R<Option<i128>> {
        let now = self.now();
        let x = self.pb(b, p);
        let bk = self.bm(b);
        let (exp, eps) = match bk.ecfg.get(p) {
            Some(c) => *c,
            None => return Ok(None),
        };
        let (idx, last) = match bk.edata.get(p) {
            Some(d) => *d,
            None => return rej("emission data missing", &["C19"]),
        };
        if last >= exp || now == last || eps == 0 || x.shares == 0 {
            return Ok(Some(idx));
        }
        let un = x.shares - x.q4w;
        if un < 0 {
            return rej("queued above total", &["C17"]);
        }
        let to = now.min(exp);
        if to < last {
            return math();
        }
        // with every share queued nobody earns: the time passes unrewarded
        let d = if un == 0 { 0 } else { mdf((to - last) as i128 * eps as i128, S7, un)? };
        bk.edata.insert(*p, (idx + d, now));
        Ok(Some(idx + d))
    }
    fn b_emit_user(&mut self, b: &Addr, p: &Addr, u: &Addr, idx: i128, claim: bool) -> R<i128> {
        let sh = self.ub(b, p, u).shares;
        let k = (*p, *u);
        let acc = match self.s.back[b].uemis.get(&k).cloned() {
            Some((ui, acc)) => {
                if ui == idx && !claim {
                    return Ok(0);
                }
                if sh != 0 {
                    if idx < ui {
                        return rej("emission index moved back", &["C19"]);
                    }
                    acc + mdf(sh, idx - ui, S7)?
                } else {
                    acc
                }
            }
            None => {
                if sh == 0 {
                    0
                } else {
                    mdf(sh, idx, S7)?
                }
            }
        };
        self.bm(b).uemis.insert(k, (idx, if claim { 0 } else { acc }));
        Ok(if claim { acc } else { 0 })
    }
    fn b_emit(&mut self, b: &Addr, p: &Addr, u: &Addr) -> R<()> {
        if let Some(idx) = self.b_emit_pool(b, p)? {
            self.b_emit_user(b, p, u, idx, false)?;
        }
        Ok(())
    }
    fn deposit(&mut self, b: &Addr, from: &Addr, p: &Addr, amt: i128) -> R<i128> {
        let t = self.bs(b)?.token;
        self.auth(from)?;
        self.nonneg(amt, &["C17"])?;
        if from == p || from == b {
            return rej("pool and backstop do not deposit", &["C17", "C13"]);
        }
        self.require_pool(b, p)?;
        self.b_emit(b, p, from)?;
        self.xfer(&t, from, b, amt)?;
        let mut x = self.pb(b, p);
        let mut u = self.ub(b, p, from);
        let sh = x.to_shares(amt)?;
        if sh == 0 {
            return rej("deposit worth no share", &["C17"]);
        }
        x.tokens += amt;
        x.shares += sh;
        u.shares += sh;
        self.set_pb(b, p, x);
        self.set_ub(b, p, from, u);
        Ok(sh)
    }
    fn queue(&mut self, b: &Addr, from: &Addr, p: &Addr, amt: i128) -> R<(i128, u64)> {
        self.bs(b)?;
        self.auth(from)?;
        self.nonneg(amt, &["C18"])?;
        self.b_emit(b, p, from)?;
        let mut u = self.ub(b, p, from);
        if u.shares < amt {
            return rej("queues more than held", &["C18", "C17"]);
        }
        if u.q4w.len() >= 21 {
            return rej("more than 21 queue entries", &["C18"]);
        }
        let e = (amt, self.now() + DAY21);
        u.shares -= amt;
        u.q4w.push(e);
        let mut x = self.pb(b, p);
        x.q4w += amt;
        self.set_pb(b, p, x);
        self.set_ub(b, p, from, u);
        Ok(e)
    }
    fn pop_queue(u: &mut UBal, amt: i128, now: Option<u64>) -> R<()> {
        let mut left = amt;
        let mut i = 0;
        while i < u.q4w.len() {
            let (a, exp) = u.q4w[i];
            if let Some(now) = now {
                if exp > now {
                    return rej("21 days not over", &["C18"]);
                }
            }
            if a > left {
                u.q4w[i].0 -= left;
                left = 0;
                break;
            }
            left -= a;
            i += 1;
            if left == 0 {
                break;
            }
        }
        u.q4w.drain(0..i);
        if left > 0 {
            return rej("takes more than queued", &["C18"]);
        }
        Ok(())
    }
    fn dequeue(&mut self, b: &Addr, from: &Addr, p: &Addr, amt: i128) -> R<()> {
        self.bs(b)?;
        self.auth(from)?;
        self.nonneg(amt, &["C18"])?;
        self.b_emit(b, p, from)?;
        let mut u = self.ub(b, p, from);
        Self::pop_queue(&mut u, amt, None)?;
        u.shares += amt;
        let mut x = self.pb(b, p);
        if amt > x.q4w {
            return rej("dequeues more than queued", &["C18", "C17"]);
        }
        x.q4w -= amt;
        self.set_pb(b, p, x);
        self.set_ub(b, p, from, u);
        Ok(())
    }
    fn withdraw(&mut self, b: &Addr, from: &Addr, p: &Addr, amt: i128) -> R<i128> {
        let t = self.bs(b)?.token;
        self.auth(from)?;
        self.nonneg(amt, &["C18"])?;
        let mut u = self.ub(b, p, from);
        let now = self.now();
        Self::pop_queue(&mut u, amt, Some(now))?;
        let mut x = self.pb(b, p);
        let out = x.to_tokens(amt)?;
        if out == 0 {
            return rej("withdrawal worth nothing", &["C17"]);
        }
        if out > x.tokens || amt > x.shares || amt > x.q4w {
            return rej("withdraws more than the pool has", &["C17"]);
        }
        x.tokens -= out;
        x.shares -= amt;
        x.q4w -= amt;
        self.set_pb(b, p, x);
        self.set_ub(b, p, from, u);
        self.xfer(&t, b, from, out)?;
        Ok(out)
    }
    pub fn draw(&mut self, b: &Addr, p: &Addr, amt: i128, to: &Addr) -> R<()> {
        let t = self.bs(b)?.token;
        self.nonneg(amt, &["C17"])?;
        let mut x = self.pb(b, p);
        if amt > x.tokens {
            return rej("draws more than the pool has", &["C17", "C11"]);
        }
        x.tokens -= amt;
        self.set_pb(b, p, x);
        self.ev(b, "draw", vec![addr(p)], vecv(vec![addr(to), i128v(amt)]));
        self.xfer(&t, b, to, amt)
    }
    pub fn donate(&mut self, b: &Addr, from: &Addr, p: &Addr, amt: i128) -> R<()> {
        let t = self.bs(b)?.token;
        self.auth(from)?;
        self.nonneg(amt, &["C17"])?;
        if from == p || from == b {
            return rej("pool and backstop do not donate", &["C17", "C12"]);
        }
        self.require_pool(b, p)?;
        self.xfer(&t, from, b, amt)?;
        let mut x = self.pb(b, p);
        x.tokens += amt;
        self.set_pb(b, p, x);
        self.ev(b, "donate", vec![addr(p), addr(from)], i128v(amt));
        Ok(())
    }
    fn tkn_val(&mut self, b: &Addr) -> R<(i128, i128)> {
        let k = self.bs(b)?;
        self.dep(&k.token, &["C16"])?;
        let sup = self.s.comet_supply;
        self.dep(&k.blnd, &["C16"])?;
        self.dep(&k.usdc, &["C16"])?;
        let v = (
            mdf(self.s.bal(&k.blnd, &k.token), S7, sup)?,
            mdf(self.s.bal(&k.usdc, &k.token), S7, sup)?,
        );
        self.bm(b).lp_val = Some(v);
        Ok(v)
    }
    pub fn above_threshold(pd: &PoolData) -> bool {
        let (b, u) = (pd.blnd / S7, pd.usdc / S7);
        b.saturating_mul(b).saturating_mul(b).saturating_mul(b).saturating_mul(u) >= PC
    }
    fn add_reward(&mut self, b: &Addr, add: &Addr, remove: &Addr) -> R<()> {
        let k = self.bs(b)?;
        let now = self.now();
        let max = if now < EPOCH { 10 } else { 10 + ((now - EPOCH) >> 23) };
        if k.rz.contains(add) {
            return rej("already in the reward zone", &["C20"]);
        }
        let pd = self.pool_data(b, add)?;
        if !Self::above_threshold(&pd) {
            return rej("backstop below the minimum", &["C20"]);
        }
        let mut rz = k.rz;
        if (rz.len() as u64) < max {
            rz.insert(0, *add);
        } else {
            let i = match rz.iter().position(|x| x == remove) {
                Some(i) => i,
                None => return rej("pool to remove is not in the zone", &["C20"]),
            };
            if k.last_dist < now - DAY {
                return rej("last distribution too long ago", &["C20"]);
            }
            if pd.tokens <= self.pb(b, remove).tokens {
                return rej("not larger than the pool it replaces", &["C20"]);
            }
            rz[i] = *add;
        }
        self.bm(b).rz = rz;
        Ok(())
    }
    fn gulp(&mut self, b: &Addr) -> R<i128> {
        let k = self.bs(b)?;
        if k.rz.is_empty() {
            return rej("no reward zone", &["C20"]);
        }
        self.dep(&k.emitter, &["C16"])?;
        let el = match self.s.emit.get(&k.emitter).and_then(|e| e.last.get(b)) {
            Some(t) => *t,
            None => return rej("backstop unknown to the emitter", &["C20"]),
        };
        if el <= k.last_dist + 3600 {
            return rej("less than an hour of emissions", &["C20"]);
        }
        let now = self.now();
        let new = (el - k.last_dist) as i128 * S7;
        let (to_back, to_pool) = (mdf(new, 7_000_000, S7)?, mdf(new, 3_000_000, S7)?);
        let mut total = 0;
        for p in &k.rz {
            total += self.pb(b, p).active()?;
        }
        self.bm(b).last_dist = el;
        for p in &k.rz {
            let share = mdf(self.pb(b, p).active()?, S7, total)?;
            let pe = mdf(share, to_pool, S7)?;
            let cur = *self.s.back[b].pool_emis.get(p).unwrap_or(&0);
            if cur + pe != 0 {
                self.bm(b).pool_emis.insert(*p, cur + pe);
            }
            let mut left = mdf(share, to_back, S7)?;
            if let Some((exp, eps)) = self.s.back[b].ecfg.get(p).cloned() {
                self.b_emit_pool(b, p)?;
                let idx = self.s.back[b].edata[p].0;
                self.bm(b).edata.insert(*p, (idx, now));
                if exp > now {
                    left += eps as i128 * (exp - now) as i128;
                }
            } else {
                self.bm(b).edata.insert(*p, (0, now));
            }
            let eps = left / WEEK as i128;
            if eps > u64::MAX as i128 {
                return math();
            }
            self.bm(b).ecfg.insert(*p, (now + WEEK, eps as u64));
        }
        Ok(new)
    }
    pub fn gulp_pool_emissions(&mut self, b: &Addr, p: &Addr) -> R<i128> {
        let k = self.bs(b)?;
        let amt = *k.pool_emis.get(p).unwrap_or(&0);
        if amt == 0 {
            return rej("nothing assigned to the pool", &["C20", "C15"]);
        }
        self.dep(&k.blnd, &["C16"])?;
        let cur = match self.s.allow.get(&(k.blnd, *b, *p)) {
            Some((a, e)) if *e >= self.s.seq => *a,
            _ => 0,
        };
        let exp = self.s.seq + 120 * 17280;
        self.approve(&k.blnd, b, p, cur + amt, exp)?;
        self.bm(b).pool_emis.remove(p);
        Ok(amt)
    }
    fn b_claim(&mut self, b: &Addr, from: &Addr, pools: &[Addr], to: &Addr) -> R<i128> {
        let k = self.bs(b)?;
        self.auth(from)?;
        if pools.is_empty() {
            return rej("no pools listed", &["C19"]);
        }
        let mut claims: BTreeMap<Addr, i128> = BTreeMap::new();
        let mut total = 0;
        for p in pools {
            let a = match self.b_emit_pool(b, p)? {
                Some(idx) => self.b_emit_user(b, p, from, idx, true)?,
                None => 0,
            };
            total += a;
            *claims.entry(*p).or_insert(0) += a;
        }
        if total > 0 {
            self.dep(&k.blnd, &["C16"])?;
            self.dep(&k.token, &["C16"])?;
            let lp = match (self.c.quote)(b, total) {
                Some(x) => x,
                None => {
                    self.notes.push("comet_refuses");
                    return rej("liquidity pool refuses the deposit", &["C16"]);
                }
            };
            self.xfer(&k.blnd, b, &k.token, total)?;
            let bal = self.s.bal(&k.token, b);
            self.set_bal(&k.token, b, bal + lp);
            self.s.comet_supply += lp;
            for (p, a) in &claims {
                let dep = mdf(lp, *a, total)?;
                if to != from {
                    // the recipient's own stream is settled before its shares change
                    self.b_emit(b, p, to)?;
                }
                let mut x = self.pb(b, p);
                let sh = x.to_shares(dep)?;
                x.tokens += dep;
                x.shares += sh;
                let mut u = self.ub(b, p, to);
                u.shares += sh;
                self.set_pb(b, p, x);
                self.set_ub(b, p, to, u);
                self.ev(b, "deposit", vec![addr(p), addr(to)], two(dep, sh));
            }
        }
        Ok(total)
    }

    // ---------------------------------------------------------------- emitter
    fn em(&mut self, e: &Addr) -> R<EmitS> {
        self.dep(e, &["C16"])?;
        match self.s.emit.get(e) {
            Some(x) => Ok(x.clone()),
            None => rej("not an initialised emitter", &["C23"]),
        }
    }
    fn distribute(&mut self, e: &Addr) -> R<i128> {
        let k = self.em(e)?;
        let now = self.now();
        let last = *k.last.get(&k.backstop).unwrap_or(&0);
        if now < last {
            return math();
        }
        let amt = (now - last) as i128 * S7;
        self.mint_blnd(e, &k.blnd, &k.backstop, amt)?;
        self.s.emit.get_mut(e).unwrap().last.insert(k.backstop, now);
        Ok(amt)
    }
    fn larger(&mut self, k: &EmitS, cand: &Addr) -> R<bool> {
        self.dep(&k.token, &["C16"])?;
        Ok(self.s.bal(&k.token, cand) > self.s.bal(&k.token, &k.backstop))
    }
    fn e_drop(&mut self, e: &Addr, list: &[(Addr, i128)], via: Option<Addr>) -> R<()> {
        let k = self.em(e)?;
        if via != Some(k.backstop) {
            self.auth(&k.backstop)?;
        }
        if k.dropped.contains(&k.backstop) {
            return rej("already dropped", &["C21"]);
        }
        let mut sum = 0i128;
        for (_, a) in list {
            sum = match sum.checked_add(*a) {
                Some(s) => s,
                None => return math(),
            };
        }
        if sum > 50_000_000 * S7 {
            return rej("drop above 50 million", &["C21"]);
        }
        for (a, x) in list {
            self.mint_blnd(e, &k.blnd, a, *x)?;
        }
        self.s.emit.get_mut(e).unwrap().dropped.insert(k.backstop);
        let l = list.iter().map(|(a, x)| vecv(vec![addr(a), i128v(*x)])).collect();
        self.ev(e, "drop", vec![], vecv(l));
        Ok(())
    }

    // ---------------------------------------------------------------- dispatch
    pub fn apply(&mut self, t: &Tx) -> R<Ret> {
        self.evs.clear();
        let adm = self.s.pools.get(&t.to).map(|p| p.admin);
        let r = self.call(t)?;
        self.report(t, adm, &r);
        Ok(r)
    }
    /// the event each entry point publishes about itself
    fn report(&mut self, t: &Tx, adm: Option<Addr>, r: &Ret) {
        let a = &t.args;
        let to = &t.to;
        let adm = adm.map(|x| addr(&x)).unwrap_or(ScVal::Void);
        let num = |r: &Ret| match r {
            Ret::Int(x) => *x,
            _ => 0,
        };
        let f = t.func.as_str();
        match ((self.c.kind)(to), f, r) {
            (Kind::Pool, "set_admin", _) => self.ev(to, f, vec![adm], a[0].clone()),
            (Kind::Pool, "update_pool", _) => self.ev(to, f, vec![adm], vecv(a.clone())),
            (Kind::Pool, "queue_set_reserve", _) => self.ev(to, f, vec![adm], vecv(a.clone())),
            (Kind::Pool, "cancel_set_reserve", _) => self.ev(to, f, vec![adm], a[0].clone()),
            (Kind::Pool, "set_reserve", Ret::U32(i)) => self.ev(to, f, vec![], vecv(vec![a[0].clone(), u32v(*i)])),
            (Kind::Pool, "update_status", Ret::U32(n)) => self.ev(to, "set_status", vec![], u32v(*n)),
            (Kind::Pool, "set_status", _) => self.ev(to, f, vec![adm], a[0].clone()),
            (Kind::Pool, "gulp_emissions", r) => self.ev(to, "update_emissions", vec![], i128v(num(r))),
            (Kind::Pool, "claim", r) => self.ev(to, f, vec![a[0].clone()], vecv(vec![a[1].clone(), i128v(num(r))])),
            (Kind::Pool, "new_liquidation_auction", Ret::Auction(x)) => self.ev(to, f, vec![a[0].clone()], auctionv(x)),
            (Kind::Pool, "new_bad_debt_auction", Ret::Auction(x)) => self.ev(to, "new_auction", vec![u32v(1)], auctionv(x)),
            (Kind::Pool, "new_interest_auction", Ret::Auction(x)) => self.ev(to, "new_auction", vec![u32v(2)], auctionv(x)),
            (Kind::Backstop, "deposit", r) => self.ev(to, f, vec![a[1].clone(), a[0].clone()], vecv(vec![a[2].clone(), i128v(num(r))])),
            (Kind::Backstop, "queue_withdrawal", Ret::Q4w(x, e)) => {
                self.ev(to, f, vec![a[1].clone(), a[0].clone()], vecv(vec![i128v(*x), u64v(*e)]))
            }
            (Kind::Backstop, "dequeue_withdrawal", _) => self.ev(to, f, vec![a[1].clone(), a[0].clone()], a[2].clone()),
            (Kind::Backstop, "withdraw", r) => self.ev(to, f, vec![a[1].clone(), a[0].clone()], vecv(vec![a[2].clone(), i128v(num(r))])),
            (Kind::Backstop, "add_reward", _) => self.ev(to, "rw_zone", vec![], vecv(a.clone())),
            (Kind::Backstop, "claim", r) => self.ev(to, f, vec![a[0].clone()], i128v(num(r))),
            (Kind::Emitter, "distribute", r) => {
                let b = self.s.emit.get(to).map(|k| k.backstop).unwrap_or_default();
                self.ev(to, f, vec![], vecv(vec![addr(&b), i128v(num(r))]))
            }
            (Kind::Factory, "deploy", Ret::Addr(p)) => self.ev(to, f, vec![], addr(p)),
            _ => (),
        }
    }
    fn call(&mut self, t: &Tx) -> R<Ret> {
        let a = &t.args;
        let ad = |i: usize| a.get(i).and_then(as_addr).ok_or(Rej { why: "bad argument".into(), props: vec![] });
        let am = |i: usize| a.get(i).and_then(as_i128).ok_or(Rej { why: "bad argument".into(), props: vec![] });
        let u3 = |i: usize| a.get(i).and_then(as_u32).ok_or(Rej { why: "bad argument".into(), props: vec![] });
        let to = t.to;
        if self.c.down == Some(to) {
            self.uses.insert(to);
            return rej("dependency down", &["C16"]);
        }
        match ((self.c.kind)(&to), t.func.as_str()) {
            (Kind::Token, f) | (Kind::Comet, f) if ["transfer", "approve", "transfer_from", "burn", "mint", "balance"].contains(&f) => {
                match f {
                    "transfer" => {
                        self.auth(&ad(0)?)?;
                        self.xfer(&to, &ad(0)?, &ad(1)?, am(2)?)?;
                        Ok(Ret::Any)
                    }
                    "approve" => {
                        self.auth(&ad(0)?)?;
                        if (self.c.kind)(&to) == Kind::Token {
                            self.approve(&to, &ad(0)?, &ad(1)?, am(2)?, u3(3)?)?;
                        }
                        Ok(Ret::Any)
                    }
                    "transfer_from" => {
                        self.auth(&ad(0)?)?;
                        self.xfer_from(&to, &ad(0)?, &ad(1)?, &ad(2)?, am(3)?)?;
                        Ok(Ret::Any)
                    }
                    "mint" => {
                        let adm = self.c.blnd_admin;
                        self.auth(&adm)?;
                        self.mint_blnd(&adm, &to, &ad(0)?, am(1)?)?;
                        Ok(Ret::Any)
                    }
                    "balance" => Ok(Ret::Int(self.s.bal(&to, &ad(0)?))),
                    _ => rej("not modelled", &[]),
                }
            }
            (Kind::Pool, "initialize") => {
                if self.s.pools.contains_key(&to) {
                    return rej("already initialised", &["C23"]);
                }
                self.auth(&ad(0)?)?;
                self.init_pool(&to, t)?;
                Ok(Ret::Void)
            }
            (Kind::Pool, f) => {
                let p = to;
                let f = f.to_string();
                self.pool_call(&p, &f, t)
            }
            (Kind::Backstop, f) => {
                let b = to;
                match f {
                    "initialize" => {
                        if self.s.back.contains_key(&b) {
                            return rej("already initialised", &["C23"]);
                        }
                        let em = ad(1)?;
                        self.dep(&em, &["C16"])?;
                        let last = match self.s.emit.get(&em).and_then(|e| e.last.get(&b)) {
                            Some(t) => *t,
                            None => return rej("emitter does not know this backstop", &["C23"]),
                        };
                        self.s.back.insert(
                            b,
                            BackS {
                                token: ad(0)?,
                                emitter: em,
                                usdc: ad(2)?,
                                blnd: ad(3)?,
                                factory: ad(4)?,
                                drop_list: Some(pair_list(&a[5])),
                                last_dist: last,
                                ..Default::default()
                            },
                        );
                        Ok(Ret::Void)
                    }
                    "deposit" => Ok(Ret::Int(self.deposit(&b, &ad(0)?, &ad(1)?, am(2)?)?)),
                    "queue_withdrawal" => {
                        let q = self.queue(&b, &ad(0)?, &ad(1)?, am(2)?)?;
                        Ok(Ret::Q4w(q.0, q.1))
                    }
                    "dequeue_withdrawal" => {
                        self.dequeue(&b, &ad(0)?, &ad(1)?, am(2)?)?;
                        Ok(Ret::Void)
                    }
                    "withdraw" => Ok(Ret::Int(self.withdraw(&b, &ad(0)?, &ad(1)?, am(2)?)?)),
                    "user_balance" => {
                        self.bs(&b)?;
                        Ok(Ret::UBal(self.ub(&b, &ad(0)?, &ad(1)?)))
                    }
                    "pool_data" => {
                        let d = self.pool_data(&b, &ad(0)?)?;
                        Ok(Ret::PData(d.tokens, d.q4w_pct, d.blnd, d.usdc))
                    }
                    "backstop_token" => Ok(Ret::Addr(self.bs(&b)?.token)),
                    "gulp_emissions" => {
                        let n = self.gulp(&b)?;
                        self.ev(&b, "gulp_emissions", vec![], i128v(n));
                        Ok(Ret::Void)
                    }
                    "add_reward" => {
                        self.add_reward(&b, &ad(0)?, &ad(1)?)?;
                        Ok(Ret::Void)
                    }
                    "gulp_pool_emissions" => {
                        self.bs(&b)?;
                        self.auth(&ad(0)?)?;
                        Ok(Ret::Int(self.gulp_pool_emissions(&b, &ad(0)?)?))
                    }
                    "claim" => Ok(Ret::Int(self.b_claim(&b, &ad(0)?, &addr_list(&a[1]), &ad(2)?)?)),
                    "drop" => {
                        let k = self.bs(&b)?;
                        let list = match k.drop_list {
                            Some(l) => l,
                            None => return rej("drop list gone", &["C21"]),
                        };
                        self.e_drop(&k.emitter, &list, Some(b))?;
                        Ok(Ret::Void)
                    }
                    "draw" => {
                        self.bs(&b)?;
                        self.auth(&ad(0)?)?;
                        self.draw(&b, &ad(0)?, am(1)?, &ad(2)?)?;
                        Ok(Ret::Void)
                    }
                    "donate" => {
                        self.bs(&b)?;
                        self.auth(&ad(1)?)?;
                        self.donate(&b, &ad(0)?, &ad(1)?, am(2)?)?;
                        Ok(Ret::Void)
                    }
                    "update_tkn_val" => {
                        let v = self.tkn_val(&b)?;
                        Ok(Ret::Pair(v.0, v.1))
                    }
                    _ => rej("no such function", &["C13"]),
                }
            }
            (Kind::Emitter, f) => {
                let e = to;
                match f {
                    "initialize" => {
                        if self.s.emit.contains_key(&e) {
                            return rej("already initialised", &["C23"]);
                        }
                        let mut k = EmitS {
                            blnd: ad(0)?,
                            backstop: ad(1)?,
                            token: ad(2)?,
                            ..Default::default()
                        };
                        k.last.insert(k.backstop, self.now());
                        self.s.emit.insert(e, k);
                        Ok(Ret::Void)
                    }
                    "distribute" => Ok(Ret::Int(self.distribute(&e)?)),
                    "get_last_distro" => match self.em(&e)?.last.get(&ad(0)?) {
                        Some(t) => Ok(Ret::U64(*t)),
                        None => rej("unknown backstop", &["C21"]),
                    },
                    "get_backstop" => Ok(Ret::Addr(self.em(&e)?.backstop)),
                    "get_queued_swap" => Ok(Ret::Swap(self.em(&e)?.swap)),
                    "queue_swap_backstop" => {
                        let k = self.em(&e)?;
                        if k.swap.is_some() {
                            return rej("a swap is already queued", &["C22"]);
                        }
                        if !self.larger(&k, &ad(0)?)? {
                            return rej("candidate is not larger", &["C22"]);
                        }
                        let u = self.now() + 31 * DAY;
                        let s = (ad(0)?, ad(1)?, u);
                        self.s.emit.get_mut(&e).unwrap().swap = Some(s);
                        self.ev(&e, "q_swap", vec![], swapv(&s));
                        Ok(Ret::Void)
                    }
                    "cancel_swap_backstop" => {
                        let k = self.em(&e)?;
                        let s = match k.swap {
                            Some(s) => s,
                            None => return rej("nothing queued", &["C22"]),
                        };
                        if self.larger(&k, &s.0)? {
                            return rej("candidate is still larger", &["C22"]);
                        }
                        self.s.emit.get_mut(&e).unwrap().swap = None;
                        self.ev(&e, "del_swap", vec![], swapv(&s));
                        Ok(Ret::Void)
                    }
                    "swap_backstop" => {
                        let k = self.em(&e)?;
                        let s = match k.swap {
                            Some(s) => s,
                            None => return rej("nothing queued", &["C22"]),
                        };
                        let now = self.now();
                        if s.2 > now {
                            return rej("31 days not over", &["C22"]);
                        }
                        if !self.larger(&k, &s.0)? {
                            return rej("candidate is not larger", &["C22"]);
                        }
                        self.distribute(&e)?;
                        let k = self.s.emit.get_mut(&e).unwrap();
                        k.swap = None;
                        k.backstop = s.0;
                        k.token = s.1;
                        k.last.insert(s.0, now);
                        self.ev(&e, "swap", vec![], swapv(&s));
                        Ok(Ret::Void)
                    }
                    "drop" => {
                        self.e_drop(&e, &pair_list(&a[0]), None)?;
                        Ok(Ret::Void)
                    }
                    _ => rej("no such function", &["C13"]),
                }
            }
            (Kind::Factory, f) => match f {
                "initialize" => {
                    if self.s.fact.contains_key(&to) {
                        return rej("already initialised", &["C23"]);
                    }
                    let m = &a[0];
                    let h = match field(m, "pool_hash") {
                        Some(ScVal::Bytes(b)) => b.as_slice().to_vec(),
                        _ => vec![],
                    };
                    self.s.fact.insert(
                        to,
                        FactS {
                            pool_hash: h,
                            backstop: field(m, "backstop").and_then(as_addr).unwrap_or_default(),
                            blnd: field(m, "blnd_id").and_then(as_addr).unwrap_or_default(),
                            ..Default::default()
                        },
                    );
                    Ok(Ret::Void)
                }
                "deploy" => {
                    let k = match self.s.fact.get(&to) {
                        Some(k) => k.clone(),
                        None => return rej("not initialised", &["C23"]),
                    };
                    self.auth(&ad(0)?)?;
                    let salt = match &a[2] {
                        ScVal::Bytes(b) => b.as_slice().to_vec(),
                        _ => vec![],
                    };
                    if u3(4)? >= S7 as u32 || u3(5)? < 2 {
                        return rej("invalid pool arguments", &["C23"]);
                    }
                    if self.c.salts.contains(&(to, ad(0)?, salt)) {
                        return rej("this deployer already used this salt", &["C23"]);
                    }
                    if k.pool_hash != self.c.pool_hash {
                        return rej("pool code not installed", &["C23"]);
                    }
                    let p = match self.c.deployed {
                        Some(p) => p,
                        None => return Ok(Ret::Any),
                    };
                    if self.s.pools.contains_key(&p) {
                        return rej("pool address reused", &["C23"]);
                    }
                    let init = Tx {
                        to: p,
                        func: "initialize".into(),
                        args: vec![a[0].clone(), a[1].clone(), a[3].clone(), a[4].clone(), a[5].clone(), addr(&k.backstop), addr(&k.blnd)],
                        ..t.clone()
                    };
                    self.init_pool(&p, &init)?;
                    self.s.fact.get_mut(&to).unwrap().pools.insert(p);
                    Ok(Ret::Addr(p))
                }
                "is_pool" => Ok(Ret::Bool(
                    self.s.fact.get(&to).map(|k| k.pools.contains(&ad(0).unwrap_or_default())).unwrap_or(false),
                )),
                _ => rej("no such function", &["C13"]),
            },
            _ => rej("no such contract", &["C13"]),
        }
    }

    fn init_pool(&mut self, p: &Addr, t: &Tx) -> R<()> {
        let a = &t.args;
        let (rate, maxp) = (as_u32(&a[3]).unwrap_or(u32::MAX), as_u32(&a[4]).unwrap_or(0));
        if rate >= S7 as u32 || maxp < 2 {
            return rej("invalid pool arguments", &["C23", "C14"]);
        }
        let name = match &a[1] {
            ScVal::String(s) => String::from_utf8_lossy(s.as_slice()).to_string(),
            _ => String::new(),
        };
        let g = |i: usize| as_addr(&a[i]).unwrap_or_default();
        self.s.pools.insert(
            *p,
            PoolS {
                admin: g(0),
                name,
                oracle: g(2),
                bstop_rate: rate,
                max_positions: maxp,
                backstop: g(5),
                blnd: g(6),
                status: 6,
                ..Default::default()
            },
        );
        Ok(())
    }

    fn pool_call(&mut self, p: &Addr, f: &str, t: &Tx) -> R<Ret> {
        let a = &t.args;
        let bad = || Rej { why: "bad argument".into(), props: vec![] };
        let ad = |i: usize| a.get(i).and_then(as_addr).ok_or_else(bad);
        let u3 = |i: usize| a.get(i).and_then(as_u32).ok_or_else(bad);
        self.pool(p)?;
        match f {
            "set_admin" => {
                let adm = self.pool(p)?.admin;
                self.auth(&adm)?;
                let n = ad(0)?;
                self.auth(&n)?;
                self.pm(p).admin = n;
                Ok(Ret::Void)
            }
            "update_pool" => {
                let adm = self.pool(p)?.admin;
                self.auth(&adm)?;
                if u3(0)? >= S7 as u32 {
                    return rej("take rate must be below 100 percent", &["C14"]);
                }
                let (r, m) = (u3(0)?, u3(1)?);
                // a new take rate applies to interest from here on only
                if self.pool(p)?.bstop_rate != r {
                    self.accrue_all(p)?;
                }
                let pl = self.pm(p);
                pl.bstop_rate = r;
                pl.max_positions = m;
                Ok(Ret::Void)
            }
            "queue_set_reserve" => {
                self.queue_reserve(p, &ad(0)?, &rescfg_parse(&a[1]))?;
                Ok(Ret::Void)
            }
            "cancel_set_reserve" => {
                let adm = self.pool(p)?.admin;
                self.auth(&adm)?;
                self.pm(p).queued.remove(&ad(0)?);
                Ok(Ret::Void)
            }
            "set_reserve" => Ok(Ret::U32(self.set_reserve(p, &ad(0)?)?)),
            "get_positions" => Ok(Ret::Pos(self.get_pos(p, &ad(0)?))),
            "submit" => {
                let reqs: Vec<(u32, Addr, i128)> = as_vec(&a[3])
                    .unwrap_or(&[])
                    .iter()
                    .map(|r| {
                        (
                            fu32(r, "request_type"),
                            field(r, "address").and_then(as_addr).unwrap_or_default(),
                            fi(r, "amount"),
                        )
                    })
                    .collect();
                Ok(Ret::Pos(self.submit(p, &ad(0)?, &ad(1)?, &ad(2)?, &reqs)?))
            }
            "bad_debt" => {
                self.bad_debt(p, &ad(0)?)?;
                Ok(Ret::Void)
            }
            "update_status" => Ok(Ret::U32(self.update_status(p)?)),
            "set_status" => {
                self.set_status(p, u3(0)?)?;
                Ok(Ret::Void)
            }
            "gulp_emissions" => Ok(Ret::Int(self.pool_gulp(p)?)),
            "set_emissions_config" => {
                let m: Vec<(u32, u32, u64)> = as_vec(&a[0])
                    .unwrap_or(&[])
                    .iter()
                    .map(|r| (fu32(r, "res_index"), fu32(r, "res_type"), fu64(r, "share")))
                    .collect();
                self.set_emis(p, &m)?;
                Ok(Ret::Void)
            }
            "claim" => {
                let ids: Vec<u32> = as_vec(&a[1]).unwrap_or(&[]).iter().filter_map(as_u32).collect();
                Ok(Ret::Int(self.pool_claim(p, &ad(0)?, &ids, &ad(2)?)?))
            }
            "new_liquidation_auction" => {
                let pct = a.get(1).and_then(as_u64).ok_or_else(bad)?;
                Ok(Ret::Auction(self.new_liq(p, &ad(0)?, pct)?))
            }
            "get_auction" => match self.pool(p)?.auctions.get(&(u3(0)?, ad(1)?)) {
                Some(x) => Ok(Ret::Auction(x.clone())),
                None => rej("no such auction", &["C10"]),
            },
            "new_bad_debt_auction" => Ok(Ret::Auction(self.new_bad_debt(p)?)),
            "new_interest_auction" => Ok(Ret::Auction(self.new_interest(p, &addr_list(&a[0]))?)),
            _ => rej("no such function", &["C13"]),
        }
    }
}
