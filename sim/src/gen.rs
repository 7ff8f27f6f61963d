//! Seeded scheduler: picks every client action, delay, clock step and fault of a run.

use crate::genesis::*;
use crate::model::{PosVal, Res};
use crate::natives::*;
use crate::ops::*;
use crate::prng::Rng;
use crate::state::*;
use crate::sv::*;
use crate::world::*;
use soroban_env_host::xdr::ScVal;

pub const ACTIONS: [&str; 19] = [
    "lend", "price", "time", "liquidate", "fill", "baddebt", "interest", "backstop", "emit", "admin", "status",
    "swap", "factory", "comet", "attack", "views", "outage", "claim", "corner",
];
const LEND: usize = 0;
const PRICE: usize = 1;
const TIME: usize = 2;
const LIQ: usize = 3;
const FILL: usize = 4;
const BADDEBT: usize = 5;
const INTEREST: usize = 6;
const BACK: usize = 7;
const EMIT: usize = 8;
const ADMIN: usize = 9;
const STATUS: usize = 10;
const SWAP: usize = 11;
const FACT: usize = 12;
const COMET: usize = 13;
const ATTACK: usize = 14;
const VIEWS: usize = 15;
const OUTAGE: usize = 16;
const CLAIM: usize = 17;
const CORNER: usize = 18;

pub fn emphasis(prop: &str) -> (&'static [usize], &'static [u64]) {
    // emphasised actions, and the world shapes that help
    match prop {
        "C01" => (&[LEND, INTEREST, BADDEBT, FILL, TIME], &[]),
        "C02" => (&[LEND, LIQ, FILL, BADDEBT], &[]),
        "C03" => (&[LEND, LEND, TIME], &[]),
        "C04" => (&[LEND, TIME, TIME], &[]),
        "C05" => (&[LEND, PRICE, LIQ, FILL], &[]),
        "C06" => (&[LEND, TIME, FILL, CORNER], &[]),
        "C07" => (&[STATUS, STATUS, BACK, LEND, CORNER], &[0, 1, 3]),
        "C08" => (&[OUTAGE, OUTAGE, PRICE, LEND, LIQ, INTEREST], &[]),
        "C09" => (&[LIQ, LIQ, LIQ, PRICE, LEND], &[]),
        "C10" => (&[LIQ, FILL, FILL, TIME, CORNER], &[]),
        "C11" => (&[BADDEBT, BADDEBT, FILL, PRICE], &[3, 1, 0]),
        "C12" => (&[INTEREST, INTEREST, FILL, TIME], &[]),
        "C13" => (&[ATTACK, ATTACK, ATTACK, LEND, BACK], &[]),
        "C14" => (&[ADMIN, ADMIN, ADMIN, TIME, CORNER], &[]),
        "C15" => (&[EMIT, CLAIM, LEND, LIQ, TIME], &[]),
        "C16" => (&[LEND, BACK, CLAIM, INTEREST, BADDEBT], &[]),
        "C17" => (&[BACK, BACK, INTEREST, BADDEBT, CORNER], &[]),
        "C18" => (&[BACK, BACK, BACK, TIME], &[]),
        "C19" => (&[BACK, CLAIM, CLAIM, EMIT, TIME, CORNER], &[]),
        "C20" => (&[EMIT, EMIT, BACK, TIME, CORNER], &[2, 2, 0]),
        "C21" => (&[EMIT, SWAP, TIME, CORNER], &[]),
        "C22" => (&[SWAP, SWAP, SWAP, TIME, EMIT], &[]),
        "C23" => (&[FACT, FACT, ATTACK, BACK, CORNER], &[]),
        "C24" => (&[OUTAGE, BACK, CLAIM, LEND, INTEREST, CORNER], &[]),
        "C25" => (&[TIME, TIME, LIQ, ADMIN, LEND, BACK], &[]),
        "C26" => (&[LEND, LIQ, FILL, BADDEBT, BADDEBT, INTEREST, ADMIN, BACK, CLAIM, EMIT, SWAP, FACT], &[]),
        _ => (&[], &[]),
    }
}

pub struct Conf {
    pub w: [u32; 19],
    /// per mille of transactions that carry an injected fault
    pub fault: u64,
    pub delay: u64,
    pub dup: u64,
    pub drop: u64,
    pub jump: u64,
    pub steps: usize,
    pub drain: bool,
    pub edge: u64,
}

pub fn conf(prop: &str, r: &mut Rng) -> Conf {
    let mut w = [0u32; 19];
    for x in w.iter_mut() {
        *x = match r.below(10) {
            0 | 1 | 2 => 0,
            3 | 4 | 5 | 6 => 4,
            7 | 8 => 10,
            _ => 25,
        };
    }
    w[LEND] = w[LEND].max(12);
    w[TIME] = w[TIME].max(8);
    w[VIEWS] = w[VIEWS].min(4);
    if r.pm(800) {
        for e in emphasis(prop).0 {
            w[*e] += 18;
        }
    }
    let faulty = match prop {
        "C16" => 900,
        "C24" => 700,
        _ => 400,
    };
    let on = r.pm(faulty);
    Conf {
        w,
        fault: if on { *r.pick(&[10, 50, 150, 300]) } else { 0 },
        delay: if r.pm(500) { *r.pick(&[30, 150, 400]) } else { 0 },
        dup: if r.pm(400) { 40 } else { 0 },
        drop: if r.pm(300) { 40 } else { 0 },
        jump: *r.pick(&[0, 20, 100, 300]),
        steps: 40 + r.idx(160),
        drain: r.pm(if prop == "C24" { 900 } else { 450 }),
        edge: *r.pick(&[50, 200, 500]),
    }
}

pub struct Gen<'a> {
    pub w: &'a mut World,
    pub r: Rng,
    pub c: Conf,
    pub ops: Vec<Op>,
    pend: Vec<(usize, Op)>,
    clock: usize,
    depth: u32,
    salt: u64,
    pub prop: Option<String>,
    pub stop: bool,
    pub trans: Vec<u64>,
    last: u64,
    down_oracle: bool,
}

impl<'a> Gen<'a> {
    pub fn new(w: &'a mut World, r: Rng, c: Conf, prop: Option<String>) -> Gen<'a> {
        Gen { w, r, c, ops: vec![], pend: vec![], clock: 0, depth: 0, salt: 1000, prop, stop: false, trans: vec![], last: 0, down_oracle: false }
    }

    // ------------------------------------------------------------ delivery
    fn exec(&mut self, op: Op) -> bool {
        if self.stop {
            return false;
        }
        let o = self.w.step(&op);
        if let Op::Tx(t) = &op {
            let mut f = crate::prng::Fnv::new();
            f.s(&t.func);
            for x in crate::check::req_types(t) {
                f.u(x as u64);
            }
            f.u(o.ok as u64);
            if let Some(y) = &o.why {
                f.s(y);
            }
            f.u(matches!(t.fault, Fault::None) as u64);
            let cur = f.0;
            self.trans.push(cur ^ self.last.rotate_left(17));
            self.last = cur;
        }
        self.ops.push(op);
        if let Some(p) = &self.prop {
            if self.w.viol.iter().any(|v| v.props.contains(&p.as_str())) {
                self.stop = true;
            }
        }
        o.ok
    }
    /// a client submits a transaction: the simulated mempool may delay, duplicate, drop or fault it
    fn send(&mut self, mut t: Tx) -> bool {
        if self.stop {
            return false;
        }
        self.third_party(&mut t);
        if self.c.fault > 0 && t.fault == Fault::None && self.r.pm(self.c.fault) {
            let clean = t.clone();
            t.fault = self.pick_fault(&t);
            let ok = self.exec(Op::Tx(t));
            if !ok && self.r.pm(600) {
                return self.exec(Op::Tx(clean));
            }
            return ok;
        }
        if self.r.pm(self.c.drop) {
            self.w.st.note("net_drop");
            return false;
        }
        if self.r.pm(self.c.delay) {
            self.w.st.note("net_delay");
            let d = self.clock + 1 + self.r.idx(6);
            self.pend.push((d, Op::Tx(t)));
            return false;
        }
        let dup = self.r.pm(self.c.dup);
        let ok = self.exec(Op::Tx(t.clone()));
        if dup {
            self.w.st.note("net_duplicate");
            self.exec(Op::Tx(t));
        }
        ok
    }
    /// sometimes somebody else pays for a submission or receives what it pays out
    fn third_party(&mut self, t: &mut Tx) {
        if t.func != "submit" || t.args.len() != 4 || !self.r.pm(70) {
            return;
        }
        let me = match (as_addr(&t.args[0]), as_addr(&t.args[1]), as_addr(&t.args[2])) {
            (Some(a), Some(b), Some(c)) if a == b && b == c && t.signers == vec![a] => a,
            _ => return,
        };
        let o = self.user();
        let k = self.r.below(3);
        if k != 0 {
            t.args[1] = addr(&o);
            t.signers = vec![me, o];
        }
        if k != 1 {
            t.args[2] = addr(&o);
        }
    }
    fn pick_fault(&mut self, t: &Tx) -> Fault {
        match self.r.below(10) {
            0 | 1 | 2 => Fault::TokenTrap(self.r.below(5) as u32),
            3 => Fault::OracleTrap(self.r.below(5) as u32),
            4 => Fault::Reenter(self.r.below(3) as u32, t.to),
            5 | 6 => Fault::Budget(self.r.range(50_000, 40_000_000) as u64),
            _ => {
                let lp = t.to == A::backstop() || crate::check::req_types(t).iter().any(|x| *x == 7 || *x == 8);
                if lp && self.r.pm(400) {
                    return Fault::Down(A::comet());
                }
                let mut l = vec![A::blnd(), A::usdc(), A::comet(), A::emitter(), A::factory(), A::backstop()];
                l.extend(self.w.p.oracles.iter().cloned());
                l.extend(self.w.p.assets.iter().map(|a| a.id));
                Fault::Down(*self.r.pick(&l))
            }
        }
    }
    fn pump(&mut self) {
        self.clock += 1;
        let mut due = vec![];
        let c = self.clock;
        self.pend.retain(|(d, o)| {
            if *d <= c {
                due.push(o.clone());
                false
            } else {
                true
            }
        });
        if due.len() > 1 && self.r.pm(500) {
            self.w.st.note("net_reorder");
            due.reverse();
        }
        for o in due {
            self.exec(o);
        }
    }
    fn time(&mut self, ledgers: u32, secs: u64) {
        if self.w.led.seq > 3_000_000_000 {
            return;
        }
        self.exec(Op::Time { ledgers, secs });
    }

    // ------------------------------------------------------------ helpers
    fn user(&mut self) -> Addr {
        let u = self.w.p.users.clone();
        *self.r.pick(&u)
    }
    fn pool(&mut self) -> Option<Addr> {
        let v = self.w.pools();
        if v.is_empty() {
            return None;
        }
        let r = A::rogue();
        let p = *self.r.pick(&v);
        if p == r && self.r.pm(800) {
            return Some(*self.r.pick(&v));
        }
        Some(p)
    }
    fn asset(&mut self, p: &Addr) -> Option<Addr> {
        let v = self.w.s.pools[p].res_list.clone();
        if v.is_empty() {
            return None;
        }
        Some(*self.r.pick(&v))
    }
    fn info(&self, a: &Addr) -> Asset {
        self.w.p.assets.iter().find(|x| x.id == *a).cloned().unwrap_or(Asset { id: *a, dec: 7, cents: 100 })
    }
    /// a token amount worth about this many cents
    fn worth(&self, a: &Addr, cents: i128) -> i128 {
        let i = self.info(a);
        (10i128.pow(i.dec) * cents / i.cents).max(1)
    }
    fn accept(&self, t: &Tx) -> bool {
        self.w.predict(t, |m| m.apply(t).is_ok())
    }
    fn value(&self, p: &Addr, u: &Addr) -> Option<PosVal> {
        let t = tx(*p, "x", vec![], &[]);
        self.w.predict(&t, |m| m.user_value(p, u).ok())
    }
    fn fresh(&self, p: &Addr, a: &Addr) -> Option<Res> {
        let t = tx(*p, "x", vec![], &[]);
        self.w.predict(&t, |m| m.fresh(p, a).ok())
    }
    /// largest amount in lo..hi for which the model gives the same answer as for lo
    fn boundary(&self, lo: i128, hi: i128, mk: &dyn Fn(i128) -> Tx) -> Option<i128> {
        if hi <= lo {
            return None;
        }
        let t0 = mk(lo);
        self.w.predict(&t0, |m| {
            let s0 = m.s.clone();
            let mut eval = |x: i128| {
                m.s = s0.clone();
                m.apply(&mk(x)).is_ok()
            };
            let base = eval(lo);
            if eval(hi) == base {
                return None;
            }
            let (mut a, mut b) = (lo, hi);
            while b - a > 1 {
                let mid = a + (b - a) / 2;
                if eval(mid) == base {
                    a = mid;
                } else {
                    b = mid;
                }
            }
            Some(a)
        })
    }
    fn jitter(&mut self, x: i128) -> i128 {
        x + *self.r.pick(&[-1i128, 0, 0, 1, 1])
    }
    fn odd_amount(&mut self) -> Option<i128> {
        if self.r.pm(40) {
            Some(*self.r.pick(&[0, 1, -1, 2, i64::MAX as i128, -1_000_000, 10, i128::MAX, i128::MIN]))
        } else {
            None
        }
    }

    // ------------------------------------------------------------ actions
    pub fn run(&mut self) {
        for _ in 0..self.c.steps {
            if self.stop {
                return;
            }
            self.pump();
            let a = self.r.weighted(&self.c.w.clone());
            self.act(a);
        }
        let rest: Vec<Op> = self.pend.drain(..).map(|x| x.1).collect();
        for o in rest {
            self.exec(o);
        }
        if self.c.drain && !self.stop {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.drain()));
            if r.is_err() {
                self.w.st.note("generator_overflow");
            }
        }
    }
    fn other(&mut self) {
        // someone else gets in between
        if self.depth < 2 && self.r.pm(150) {
            self.depth += 1;
            self.pump();
            let a = self.r.weighted(&self.c.w.clone());
            self.act(a);
            self.depth -= 1;
        }
    }
    fn act(&mut self, a: usize) {
        // arithmetic of the generator itself may overflow on extreme prices: the action is then skipped
        let d = self.depth;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.act_(a)));
        if r.is_err() {
            self.depth = d;
            self.w.st.note("generator_overflow");
        }
    }
    fn act_(&mut self, a: usize) {
        match a {
            LEND => self.lend(),
            PRICE => self.price(),
            TIME => self.clock_step(),
            LIQ => self.liquidate(),
            FILL => self.fill_any(),
            BADDEBT => self.bad_debt(),
            INTEREST => self.interest(),
            BACK => self.backstop(),
            EMIT => self.emissions(),
            ADMIN => self.admin(),
            STATUS => self.status(),
            SWAP => self.swap(),
            FACT => self.factory(),
            COMET => self.comet(),
            ATTACK => self.attack(),
            VIEWS => self.views(),
            OUTAGE => self.outage(),
            CORNER => self.corner(),
            _ => self.claim(),
        }
    }

    fn lend_req(&mut self, p: &Addr, u: &Addr) -> Option<(u32, Addr, i128)> {
        let a = if self.r.pm(25) {
            let l: Vec<Addr> = self.w.p.assets.iter().map(|x| x.id).collect();
            *self.r.pick(&l)
        } else {
            self.asset(p)?
        };
        let pos = self.w.s.pools[p].pos.get(u).cloned().unwrap_or_default();
        let has_c = !pos.coll.is_empty();
        let has_s = !pos.supp.is_empty();
        let has_l = !pos.liab.is_empty();
        let ty = self.r.weighted(&[
            10,
            if has_s { 10 } else { 1 },
            if has_c { 8 } else { 20 },
            if has_c { 10 } else { 1 },
            if has_c { 18 } else { 1 },
            if has_l { 14 } else { 1 },
        ]) as u32;
        let list = self.w.s.pools[p].res_list.clone();
        let mut a = a;
        if ty == 1 || ty == 3 || ty == 5 {
            let m = match ty {
                1 => &pos.supp,
                3 => &pos.coll,
                _ => &pos.liab,
            };
            let ks: Vec<u32> = m.keys().cloned().collect();
            if !ks.is_empty() && self.r.pm(900) {
                a = list[*self.r.pick(&ks) as usize];
            }
        }
        let bal = self.w.s.bal(&a, u);
        let cash = self.w.s.bal(&a, p);
        if let Some(x) = self.odd_amount() {
            return Some((ty, a, x));
        }
        let res = self.fresh(p, &a);
        let amt = match ty {
            0 | 2 => match self.r.below(10) {
                0 => self.r.log(bal),
                1 => self.r.range(1, 100),
                2 => bal,
                _ => {
                    let c = self.r.range(1_000, 30_000_000);
                    self.worth(&a, c)
                }
            },
            1 | 3 => {
                let i = list.iter().position(|x| *x == a).unwrap_or(99) as u32;
                let b = *(if ty == 1 { &pos.supp } else { &pos.coll }).get(&i).unwrap_or(&0);
                let full = res.as_ref().and_then(|r| r.from_b(b).ok()).unwrap_or(0);
                match self.r.below(10) {
                    0 => self.r.log(full.max(1)),
                    1 => self.r.range(1, 100),
                    2 => self.jitter(full),
                    3 => full * 2 + 10,
                    4 => self.jitter(cash),
                    5 => cash.min(full),
                    _ => self.r.range(1, full.max(1)),
                }
            }
            4 => match self.r.below(8) {
                0 => self.r.log(cash.max(1)),
                1 => self.r.range(1, 100),
                2 => self.jitter(cash),
                _ => {
                    let c = self.r.range(100, 20_000_000);
                    self.worth(&a, c)
                }
            },
            _ => {
                let i = list.iter().position(|x| *x == a).unwrap_or(99) as u32;
                let d = *pos.liab.get(&i).unwrap_or(&0);
                let full = res.as_ref().and_then(|r| r.from_d(d).ok()).unwrap_or(0);
                match self.r.below(10) {
                    0 => self.r.log(full.max(1)),
                    1 => self.r.range(1, 100),
                    2 | 3 => self.jitter(full),
                    4 | 5 => full + self.r.log(full.max(1)),
                    _ => self.r.range(1, full.max(1)),
                }
            }
        };
        Some((ty, a, amt))
    }
    fn lend(&mut self) {
        let p = match self.pool() {
            Some(p) => p,
            None => return,
        };
        let u = self.user();
        let spender = if self.r.pm(80) { self.user() } else { u };
        let to = if self.r.pm(120) { self.user() } else { u };
        let n = [1, 1, 1, 1, 2, 2, 3, 4][self.r.idx(8)];
        let mut reqs = vec![];
        for _ in 0..n {
            if let Some(q) = self.lend_req(&p, &u) {
                reqs.push(q);
            }
        }
        if reqs.is_empty() {
            return;
        }
        if self.r.pm(30) {
            reqs.push((9, u, 0));
        }
        let signers = [u, spender];
        if self.r.pm(self.c.edge) && self.lend_edge(&p, &u, &spender, &to, &reqs) {
            return;
        }
        self.send(submit3(p, &u, &spender, &to, reqs, &signers));
    }

    /// walks to the exact acceptance boundary of the last request
    fn lend_edge(&mut self, p: &Addr, u: &Addr, spender: &Addr, to: &Addr, reqs: &[(u32, Addr, i128)]) -> bool {
        let signers = [*u, *spender];
        let mut rr = reqs.to_vec();
        let k = rr.len() - 1;
        let (ty, a, _) = rr[k];
        if ty > 5 {
            return false;
        }
        let hi = (self.w.s.bal(&a, p).max(self.w.s.bal(&a, u)) + 5).max(10);
        let mk = |x: i128| {
            let mut q = rr.clone();
            q[k].2 = x;
            submit3(*p, u, spender, to, q, &signers)
        };
        // from the smallest amount that works
        let mut lo = 1;
        for _ in 0..40 {
            if self.accept(&mk(lo)) || lo > hi / 2 {
                break;
            }
            lo *= 4;
        }
        if let Some(b) = self.boundary(lo, hi, &mk) {
            self.w.st.note("edge_lend");
            for x in [b + 1, b] {
                rr[k].2 = x;
                self.exec(Op::Tx(submit3(*p, u, spender, to, rr.clone(), &signers)));
            }
            return true;
        }
        false
    }
    /// an asset that is worth next to nothing, as collateral and as debt
    fn collapsed(&mut self) {
        let p = match self.pool() {
            Some(p) => p,
            None => return,
        };
        let (a, b) = match (self.asset(&p), self.asset(&p)) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        let o = self.w.s.pools[&p].oracle;
        match self.w.env.borrow().oracles.get(&o).and_then(|x| x.prices.get(&a)).map(|x| x.feed) {
            Some(Feed::Auto) => {}
            _ => return,
        }
        let price = match self.r.below(4) {
            0 => self.r.range(1, 10),
            _ => self.r.log(5000),
        };
        self.exec(Op::Price { oracle: o, asset: a, price, feed: PFeed::Auto });
        for _ in 0..2 {
            let u = self.user();
            let x = self.w.s.bal(&a, &u);
            let y = self.worth(&b, 100_000).min(self.w.s.bal(&b, &u));
            let hit = match self.r.below(3) {
                0 => {
                    self.send(submit3(p, &u, &u, &u, vec![(2, a, x / 2)], &[u]));
                    self.lend_edge(&p, &u, &u, &u, &[(4, b, 1)])
                }
                1 => {
                    self.send(submit3(p, &u, &u, &u, vec![(2, b, y), (4, a, (self.w.s.bal(&a, &p) / 2).max(1))], &[u]));
                    self.lend_edge(&p, &u, &u, &u, &[(3, b, 1)])
                }
                _ => {
                    self.send(submit3(p, &u, &u, &u, vec![(2, a, x / 2), (2, b, y)], &[u]));
                    self.lend_edge(&p, &u, &u, &u, &[(3, b, y / 2), (4, b, 1)])
                }
            };
            if hit {
                self.w.st.note("edge_collapse");
            }
        }
        if self.r.pm(800) {
            self.reset_prices();
        }
    }

    fn price(&mut self) {
        if self.r.pm(20) {
            self.collapsed();
            return;
        }
        let (oracles, assets) = (self.w.p.oracles.clone(), self.w.p.assets.clone());
        let o = *self.r.pick(&oracles);
        let a = self.r.pick(&assets).clone();
        let dec = self.w.env.borrow().oracles[&o].decimals;
        let base = price_of(&a, dec);
        let cur = self.w.env.borrow().oracles[&o].prices.get(&a.id).map(|p| p.price).unwrap_or(base);
        let price = match self.r.below(10) {
            0 => base,
            1 => cur * self.r.range(20, 95) / 100,
            2 => (cur * self.r.range(105, 300) / 100).min(base * 4),
            3 => cur + self.r.range(-3, 3),
            _ => cur * self.r.range(970, 1030) / 1000,
        };
        let price = match self.r.below(60) {
            0 => *self.r.pick(&[1i128, 10, 500, 999, 1001]),
            1 => base * 1000,
            _ => price.max(1).max(base / 100),
        };
        let feed = self.w.env.borrow().oracles[&o].prices.get(&a.id).map(|p| p.feed);
        if let Some(Feed::Auto) = feed {
            self.exec(Op::Price { oracle: o, asset: a.id, price, feed: PFeed::Auto });
        }
    }

    fn outage(&mut self) {
        let (oracles, assets) = (self.w.p.oracles.clone(), self.w.p.assets.clone());
        if self.down_oracle && self.r.pm(450) {
            self.restore();
            return;
        }
        if self.r.pm(if self.w.p.assets.len() > 6 { 300 } else { 30 }) {
            self.wide_stale();
            return;
        }
        let o = *self.r.pick(&oracles);
        let a = self.r.pick(&assets).clone();
        let cur = self.w.env.borrow().oracles[&o].prices.get(&a.id).map(|p| p.price).unwrap_or(1);
        let f = match self.r.below(8) {
            0 => PFeed::Missing,
            1 => PFeed::Age(86_400),
            2 => PFeed::Age(86_401),
            3 => PFeed::Age(86_399),
            4 => PFeed::Age(-600),
            5 => PFeed::Age(self.r.range(0, 200_000) as i64),
            6 => PFeed::Age(0),
            _ => PFeed::Age(86_400 - 5 * self.r.range(0, 3) as i64),
        };
        self.down_oracle = true;
        self.exec(Op::Price { oracle: o, asset: a.id, price: cur, feed: f });
        if self.r.pm(600) {
            // someone who is exposed to it acts
            let ps: Vec<Addr> = self.w.pools().into_iter().filter(|p| self.w.s.pools[p].oracle == o && self.w.s.pools[p].res_list.contains(&a.id)).collect();
            if let Some(p) = ps.first().cloned() {
                let us: Vec<Addr> = self.w.s.pools[&p].pos.iter().filter(|(_, x)| !x.liab.is_empty() || !x.coll.is_empty()).map(|x| *x.0).collect();
                if !us.is_empty() {
                    let u = *self.r.pick(&us);
                    match self.r.below(5) {
                        0 => {
                            let pct = self.r.range(1, 100) as u64;
                            self.send(tx(p, "new_liquidation_auction", vec![addr(&u), u64v(pct)], &[]));
                        }
                        1 => {
                            let l = self.w.s.pools[&p].res_list.clone();
                            self.send(tx(p, "new_interest_auction", vec![vecv(l.iter().map(addr).collect())], &[]));
                        }
                        2 => {
                            self.send(tx(p, "new_bad_debt_auction", vec![], &[]));
                        }
                        _ => {
                            let l = self.w.s.pools[&p].res_list.clone();
                            let b = *self.r.pick(&l);
                            let ty = *self.r.pick(&[3u32, 4, 4, 5, 1]);
                            let x = self.worth(&b, 1000);
                            self.send(submit(p, &u, vec![(ty, b, x)]));
                        }
                    }
                }
            }
        }
    }
    fn restore(&mut self) {
        self.down_oracle = false;
        let os: Vec<(Addr, Addr, i128, Feed)> = self
            .w
            .env
            .borrow()
            .oracles
            .iter()
            .flat_map(|(o, s)| s.prices.iter().map(move |(a, p)| (*o, *a, p.price, p.feed)))
            .collect();
        for (o, a, pr, f) in os {
            if f != Feed::Auto {
                self.exec(Op::Price { oracle: o, asset: a, price: pr, feed: PFeed::Auto });
            }
        }
    }

    fn clock_step(&mut self) {
        // towards something that is due
        if self.r.pm(350) {
            let now = self.w.led.ts;
            let mut due: Vec<u64> = vec![];
            for b in self.w.s.back.values() {
                for u in b.ubal.values() {
                    if let Some(e) = u.q4w.first() {
                        due.push(e.1);
                    }
                }
                for c in b.ecfg.values() {
                    due.push(c.0);
                }
                due.push(b.last_dist + 3600);
                due.push(b.last_dist + 86_400);
            }
            for e in self.w.s.emit.values() {
                if let Some(s) = &e.swap {
                    for _ in 0..4 {
                        due.push(s.2);
                    }
                }
                if let Some(l) = e.last.get(&e.backstop) {
                    due.push(l + 3600);
                    due.push(l + 3601);
                }
            }
            for p in self.w.s.pools.values() {
                for q in p.queued.values() {
                    due.push(q.1);
                    due.push(q.1);
                }
                for c in p.ecfg.values() {
                    due.push(c.0);
                }
            }
            for o in self.w.env.borrow().oracles.values() {
                for p in o.prices.values() {
                    if let Feed::Fixed(t) = p.feed {
                        due.push(t + 86_400);
                    }
                }
            }
            due.retain(|t| *t > now + 1 && *t < now + 60 * 86_400);
            if !due.is_empty() {
                let t = *self.r.pick(&due);
                let d = (t as i64 - now as i64 + *self.r.pick(&[-1i64, 0, 0, 1])).max(1) as u64;
                self.w.st.note("edge_time");
                self.time((d / 5) as u32, d);
                self.due_actions();
                return;
            }
        }
        let (l, s) = match self.r.below(12) {
            0 => (1, 5),
            1 => (0, 0),
            2 => (self.r.range(1, 30) as u32, self.r.range(5, 600) as u64),
            3 => (0, self.r.range(1, 4000) as u64),
            4 => (self.r.range(1, 400) as u32, 0),
            5 => {
                let l = self.r.range(1, 410) as u32;
                (l, l as u64 * 5)
            }
            6 => {
                let h = self.r.range(1, 30) as u64;
                (h as u32 * 720, h * 3600)
            }
            7 => {
                let d = self.r.range(1, 10) as u64;
                (d as u32 * 17280, d * 86_400)
            }
            8 => (17280, 86_400),
            9 if self.r.pm(300) => {
                let d = self.r.range(7, 40) as u64;
                (d as u32 * 17280, d * 86_400)
            }
            _ => {
                if self.r.pm(self.c.jump) {
                    self.w.st.note("clock_jump");
                    let d = *self.r.pick(&[31u64, 46, 101, 121, 181, 400]);
                    let skew = *self.r.pick(&[1u64, 1, 10]);
                    (d as u32 * 17280, d * 86_400 / skew)
                } else {
                    (720, 3600)
                }
            }
        };
        self.time(l, s);
    }

    /// try what just became due (or is one second short of it)
    fn due_actions(&mut self) {
        let now = self.w.led.ts;
        let mut txs = vec![];
        for (b, x) in &self.w.s.back {
            for ((p, u), ub) in &x.ubal {
                if let Some(e) = ub.q4w.first() {
                    if e.1 <= now + 2 && e.1 + 2 >= now {
                        txs.push(tx(*b, "withdraw", vec![addr(u), addr(p), i128v(e.0)], &[*u]));
                    }
                }
            }
        }
        for (e, x) in &self.w.s.emit {
            if let Some(s) = &x.swap {
                if s.2 <= now + 2 && s.2 + 2 >= now {
                    txs.push(tx(*e, "swap_backstop", vec![], &[]));
                }
            }
        }
        for (p, x) in &self.w.s.pools {
            for (a, q) in &x.queued {
                if q.1 <= now + 2 && q.1 + 2 >= now {
                    txs.push(tx(*p, "set_reserve", vec![addr(a)], &[]));
                }
            }
        }
        if txs.is_empty() || self.r.pm(300) {
            txs.push(tx(A::emitter(), "distribute", vec![], &[]));
            txs.push(tx(A::backstop(), "gulp_emissions", vec![], &[]));
        }
        for t in txs.into_iter().take(4) {
            self.send(t);
        }
    }

    /// make sure `u` has collateral and debt in `p`
    fn position(&mut self, p: &Addr) -> Option<Addr> {
        let us: Vec<Addr> = self.w.s.pools[p]
            .pos
            .iter()
            .filter(|(u, x)| !x.liab.is_empty() && !x.coll.is_empty() && self.w.p.users.contains(u))
            .map(|x| *x.0)
            .collect();
        let wide = self.w.s.pools[p].res_list.len() > 4;
        if !us.is_empty() && self.r.pm(850) {
            let u = *self.r.pick(&us);
            if self.r.pm(if wide { 400 } else { 60 }) {
                self.grow(p, &u);
            }
            return Some(u);
        }
        let u = self.user();
        let list = self.w.s.pools[p].res_list.clone();
        if list.len() < 2 {
            return None;
        }
        let col: Vec<Addr> = list.iter().filter(|a| self.w.s.pools[p].cfg[*a].c_factor > 0).cloned().collect();
        if col.is_empty() {
            return None;
        }
        let c = *self.r.pick(&col);
        let rest: Vec<Addr> = list.iter().filter(|x| **x != c).cloned().collect();
        let d = *self.r.pick(&rest);
        let who = self.user();
        let v = self.r.range(100_000, 30_000_000);
        let sup = self.worth(&d, v * 2);
        self.exec(Op::Tx(submit(*p, &who, vec![(0, d, sup)])));
        let cv = self.worth(&c, v);
        self.exec(Op::Tx(submit(*p, &u, vec![(2, c, cv)])));
        // borrow as much as the rules allow
        let hi = self.w.s.bal(&d, p) + 1;
        let mk = |x: i128| submit(*p, &u, vec![(4, d, x)]);
        let lo = self.worth(&d, 10);
        if let Some(b) = self.boundary(lo, hi, &mk) {
            let x = if self.r.pm(500) { b } else { self.r.range(b / 2, b) };
            self.exec(Op::Tx(submit(*p, &u, vec![(4, d, x.max(1))])));
        }
        if self.r.pm(if wide { 700 } else { 150 }) {
            self.grow(p, &u);
        }
        Some(u)
    }
    /// more reserves in one account's position, up to the allowed number and past it
    fn grow(&mut self, p: &Addr, u: &Addr) {
        let list = self.w.s.pools[p].res_list.clone();
        let n = self.r.range(1, 6);
        for _ in 0..n {
            let a = *self.r.pick(&list);
            let i = list.iter().position(|x| *x == a).unwrap() as u32;
            let pos = self.w.s.pools[p].pos.get(u).cloned().unwrap_or_default();
            let val = match self.value(p, u) {
                Some(v) => v,
                None => return,
            };
            if self.r.pm(500) {
                if pos.liab.contains_key(&i) && self.r.pm(700) {
                    continue;
                }
                let c = self.r.range(10_000, 5_000_000);
                let x = self.worth(&a, c).max(1);
                self.exec(Op::Tx(submit(*p, u, vec![(2, a, x)])));
            } else {
                if pos.coll.contains_key(&i) && self.r.pm(700) {
                    continue;
                }
                let dec = self.w.env.borrow().oracles.get(&self.w.s.pools[p].oracle).map(|o| o.decimals).unwrap_or(7);
                let room = (val.cb - val.lb).max(0) / 10i128.pow(dec).max(1) * 100;
                let c = self.r.range(1, (room / 3).clamp(1, 5_000_000));
                let x = self.worth(&a, c).max(1);
                let res = self.fresh(p, &a);
                if let Some(r) = res {
                    if self.w.s.bal(&a, p) < 2 * x || r.from_b(r.d.b_supply).unwrap_or(0) < 3 * x {
                        let who = self.user();
                        self.exec(Op::Tx(submit(*p, &who, vec![(0, a, x * 4)])));
                    }
                }
                self.exec(Op::Tx(submit(*p, u, vec![(4, a, x)])));
            }
        }
    }
    /// move prices so that an account's weighted collateral is `target` permille of its weighted debt
    fn squeeze(&mut self, p: &Addr, u: &Addr, target: i128) {
        let v = match self.value(p, u) {
            Some(v) if v.lb > 0 && v.cb > 0 => v,
            _ => return,
        };
        let pos = self.w.s.pools[p].pos[u].clone();
        let list = self.w.s.pools[p].res_list.clone();
        let o = self.w.s.pools[p].oracle;
        let cur = |g: &Gen, a: &Addr| g.w.env.borrow().oracles.get(&o).and_then(|x| x.prices.get(a).map(|p| p.price)).unwrap_or(0);
        let only: Vec<Addr> = pos.coll.keys().filter(|i| !pos.liab.contains_key(i)).map(|i| list[*i as usize]).collect();
        let onlyl: Vec<Addr> = pos.liab.keys().filter(|i| !pos.coll.contains_key(i)).map(|i| list[*i as usize]).collect();
        let f = |x: i128| -> i128 { x };
        let mul = (v.lb / 1000).max(1) * f(target);
        let down = mul < v.cb;
        let side = if self.r.pm(500) && !onlyl.is_empty() && down { &onlyl } else { &only };
        for a in side {
            let c = cur(self, a);
            if c == 0 || v.cb / 1000 == 0 || mul / 1000 == 0 {
                return;
            }
            let n = if std::ptr::eq(side, &onlyl) {
                c * (v.cb / 1000) / (mul / 1000)
            } else {
                c * (mul / 1000) / (v.cb / 1000)
            };
            let n = n.max(1).min(c.saturating_mul(20));
            self.exec(Op::Price { oracle: o, asset: *a, price: n, feed: PFeed::Auto });
        }
    }
    fn liquidate(&mut self) {
        let p = match self.pool() {
            Some(p) => p,
            None => return,
        };
        let u = match self.position(&p) {
            Some(u) => u,
            None => return,
        };
        if self.r.pm(700) {
            let t = match self.r.below(6) {
                0 => self.r.range(995, 1005),
                1 => 1000,
                2 => self.r.range(100, 700),
                _ => self.r.range(700, 999),
            };
            self.squeeze(&p, &u, t);
        }
        // creation boundary in price is crossed by tiny moves
        if self.r.pm(200) {
            self.price_edge(&p, &u);
        }
        self.other();
        let made = self.new_liq(&p, &u);
        self.other();
        if made {
            match self.r.below(8) {
                0 => {
                    self.send(submit(p, &u, vec![(9, u, 0)]));
                }
                1 => {
                    let v = self.asset(&p);
                    if let Some(a) = v {
                        let x = self.worth(&a, 50_000_000);
                        self.send(submit(p, &u, vec![(2, a, x), (9, u, 0)]));
                    }
                }
                2 => {}
                _ => {
                    self.wait_blocks();
                    self.fill(&p, 0, &u);
                    if self.r.pm(400) {
                        self.wait_blocks();
                        self.fill(&p, 0, &u);
                    }
                }
            }
            if self.r.pm(350) {
                self.reset_prices();
            }
        }
    }
    fn price_edge(&mut self, p: &Addr, u: &Addr) {
        let o = self.w.s.pools[p].oracle;
        let pos = match self.w.s.pools[p].pos.get(u) {
            Some(x) => x.clone(),
            None => return,
        };
        let list = self.w.s.pools[p].res_list.clone();
        let a = match pos.coll.keys().find(|i| !pos.liab.contains_key(i)) {
            Some(i) => list[*i as usize],
            None => return,
        };
        let t = tx(*p, "x", vec![], &[]);
        let under = |g: &Gen, x: i128| -> Option<bool> {
            let old = g.w.env.borrow().oracles.get(&o)?.prices.get(&a).cloned()?;
            g.w.env.borrow_mut().oracles.get_mut(&o)?.prices.get_mut(&a)?.price = x;
            let r = g.w.predict(&t, |m| m.user_value(p, u).ok()).map(|v| v.lb >= v.cb);
            *g.w.env.borrow_mut().oracles.get_mut(&o)?.prices.get_mut(&a)? = old;
            r
        };
        let c = match self.w.env.borrow().oracles.get(&o).and_then(|s| s.prices.get(&a).cloned()) {
            Some(x) => x.price,
            None => return,
        };
        let (mut lo, mut hi) = (c / 50, c * 4);
        if under(self, lo) != Some(true) || under(self, hi) != Some(false) {
            return;
        }
        while hi - lo > 1 {
            let m = lo + (hi - lo) / 2;
            match under(self, m) {
                Some(true) => lo = m,
                Some(false) => hi = m,
                None => return,
            }
        }
        self.w.st.note("edge_price");
        let x = if self.r.pm(500) { lo } else { hi };
        self.exec(Op::Price { oracle: o, asset: a, price: x, feed: PFeed::Auto });
    }
    fn reset_prices(&mut self) {
        let (oracles, assets) = (self.w.p.oracles.clone(), self.w.p.assets.clone());
        for o in oracles {
            let dec = self.w.env.borrow().oracles[&o].decimals;
            for a in &assets {
                let cur = self.w.env.borrow().oracles[&o].prices.get(&a.id).cloned();
                if let Some(p) = cur {
                    if p.price != price_of(a, dec) && p.feed == Feed::Auto {
                        self.exec(Op::Price { oracle: o, asset: a.id, price: price_of(a, dec), feed: PFeed::Auto });
                    }
                }
            }
        }
    }
    fn new_liq(&mut self, p: &Addr, u: &Addr) -> bool {
        let mk = |x: u64| tx(*p, "new_liquidation_auction", vec![addr(u), u64v(x)], &[]);
        if self.r.pm(100) {
            let x = *self.r.pick(&[0u64, 1, 100, 101, 255, u64::MAX, 1 << 32, 99]);
            return self.send(mk(x));
        }
        // which percentages are acceptable
        let ok: Vec<u64> = self.w.predict(&mk(1), |m| {
            let s0 = m.s.clone();
            (1..=100u64)
                .filter(|x| {
                    m.s = s0.clone();
                    m.apply(&mk(*x)).is_ok()
                })
                .collect()
        });
        if ok.is_empty() {
            let x = if self.r.pm(500) { 100 } else { self.r.range(1, 100) as u64 };
            return self.send(mk(x));
        }
        if self.r.pm(400) {
            self.w.st.note("edge_liq");
            let mut tries = vec![];
            if ok[0] > 1 {
                tries.push(ok[0] - 1);
            }
            let l = *ok.last().unwrap();
            if l < 100 {
                tries.push(l + 1);
                if !ok.contains(&100) {
                    tries.push(100);
                }
            }
            for x in tries {
                self.exec(Op::Tx(mk(x)));
            }
            let x = if self.r.pm(500) { ok[0] } else { l };
            return self.send(mk(x));
        }
        let x = *self.r.pick(&ok);
        self.send(mk(x))
    }
    fn wait_blocks(&mut self) {
        let n = match self.r.below(12) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => 199,
            4 => 200,
            5 => 201,
            6 => self.r.range(300, 401) as u32,
            7 => *self.r.pick(&[400u32, 401, 402, 500, 5000]),
            8 => self.r.range(201, 399) as u32,
            _ => self.r.range(3, 198) as u32,
        };
        if n > 0 {
            self.time(n, n as u64 * 5);
        }
    }
    fn fill_any(&mut self) {
        let mut l = vec![];
        for (p, x) in &self.w.s.pools {
            for (k, u) in x.auctions.keys() {
                l.push((*p, *k, *u));
            }
        }
        if l.is_empty() {
            return;
        }
        let (p, k, u) = *self.r.pick(&l);
        if self.r.pm(400) {
            self.wait_blocks();
        }
        self.fill(&p, k, &u);
    }
    fn fill(&mut self, p: &Addr, kind: u32, u: &Addr) -> bool {
        let a = match self.w.s.pools.get(p).and_then(|x| x.auctions.get(&(kind, *u))) {
            Some(a) => a.clone(),
            None => return false,
        };
        let mut f = if self.r.pm(40) { *u } else { self.user() };
        if f == *u && self.r.pm(800) {
            f = self.user();
        }
        let pct = match self.r.below(14) {
            0 => *self.r.pick(&[0i128, 101, -1, 1 << 64, (1 << 64) + 50, 1000, i128::MIN]),
            1 => 1,
            2 => 99,
            3 | 4 | 5 | 6 => self.r.range(1, 99),
            _ => 100,
        };
        let pre = match self.r.below(4) {
            0 => vec![],
            _ => {
                // bring collateral for the debt taken over
                let list = self.w.s.pools[p].res_list.clone();
                let col: Vec<Addr> = list.iter().filter(|x| self.w.s.pools[p].cfg[*x].c_factor > 5_000_000).cloned().collect();
                if kind < 2 && !col.is_empty() {
                    let c = *self.r.pick(&col);
                    let v = self.r.range(1_000_000, 40_000_000);
                    vec![(2, c, self.worth(&c, v).min(self.w.s.bal(&c, &f)).max(1))]
                } else {
                    vec![]
                }
            }
        };
        let mut reqs: Vec<(u32, Addr, i128)> = pre;
        let at = reqs.len();
        reqs.push((6 + kind, *u, pct));
        if kind < 2 && self.r.pm(400) {
            for d in a.bid.keys() {
                let x = self.w.s.bal(d, &f);
                if self.r.pm(600) {
                    reqs.push((5, *d, x * self.r.range(10, 100) / 100));
                }
            }
        }
        if self.r.pm(60) {
            reqs.push((6 + kind, *u, self.r.range(1, 100)));
        }
        if self.r.pm(350) {
            // the fill as one request of several that touch the same reserves or other auctions
            let mut mix = reqs.clone();
            let list = self.w.s.pools[p].res_list.clone();
            let near: Vec<Addr> = a.lot.keys().chain(a.bid.keys()).filter(|x| list.contains(x)).cloned().collect();
            let open: Vec<(u32, Addr)> = self.w.s.pools[p].auctions.keys().filter(|k| k.1 != f).cloned().collect();
            for _ in 0..self.r.range(1, 3) {
                let q = if !near.is_empty() && self.r.pm(700) {
                    let c = *self.r.pick(&near);
                    let v = self.r.range(1, 1_000_000);
                    let x = self.worth(&c, v).max(1);
                    Some((*self.r.pick(&[0u32, 0, 1, 2, 2, 3, 4, 5]), c, x))
                } else if !open.is_empty() && self.r.pm(400) {
                    let (k, o) = *self.r.pick(&open);
                    Some((6 + k, o, self.r.range(1, 100)))
                } else {
                    self.lend_req(p, &f)
                };
                if let Some(q) = q {
                    let i = self.r.idx(mix.len() + 1);
                    mix.insert(i, q);
                }
            }
            let t = submit(*p, &f, mix);
            if self.accept(&t) {
                self.w.st.note("edge_mixed_fill");
                return self.send(t);
            }
        }
        let t = submit(*p, &f, reqs.clone());
        if self.r.pm(200) && !self.accept(&t) {
            // wrong auction type for the same user, still a case
            reqs[at].0 = 6 + (kind + 1) % 3;
            return self.send(submit(*p, &f, reqs));
        }
        self.send(t)
    }

    /// a small fill with plenty of collateral behind it
    fn cushioned_fill(&mut self, p: &Addr, kind: u32, u: &Addr, f: &Addr) -> bool {
        let st = &self.w.s.pools[p];
        let col: Vec<Addr> = st.res_list.iter().filter(|x| st.cfg[*x].c_factor > 5_000_000).cloned().collect();
        let mut reqs = vec![];
        if !col.is_empty() {
            let c = *self.r.pick(&col);
            let x = self.worth(&c, 100_000_000).min(self.w.s.bal(&c, f)).max(1);
            reqs.push((2, c, x));
        }
        let pct = if self.r.pm(300) { 1 } else { self.r.range(1, 60) };
        reqs.push((6 + kind, *u, pct));
        self.send(submit(*p, f, reqs))
    }
    /// the price of what the backstop owes (or is about to) runs away
    fn inflate_debt(&mut self, p: &Addr) {
        let o = self.w.s.pools[p].oracle;
        let b = self.w.s.pools[p].backstop;
        let list = self.w.s.pools[p].res_list.clone();
        let owed: Vec<Addr> = self.w.s.pools[p]
            .pos
            .iter()
            .filter(|(u, x)| **u == b || x.coll.is_empty())
            .flat_map(|(_, x)| x.liab.keys().cloned().collect::<Vec<u32>>())
            .map(|i| list[i as usize])
            .collect();
        if owed.is_empty() {
            return;
        }
        let a = *self.r.pick(&owed);
        let c = self.w.env.borrow().oracles.get(&o).and_then(|x| x.prices.get(&a).map(|p| p.price)).unwrap_or(0);
        let k = *self.r.pick(&[100i128, 10_000, 1_000_000]);
        if c > 0 && c < (1 << 60) {
            self.exec(Op::Price { oracle: o, asset: a, price: c * k, feed: PFeed::Auto });
        }
    }
    /// shares remain but every token behind them was drawn
    fn drained(&mut self, p: &Addr) {
        let b = self.w.s.pools[p].backstop;
        match self.w.s.back.get(&b).and_then(|x| x.pbal.get(p)) {
            Some(x) if x.tokens == 0 && x.shares > 0 => {}
            _ => return,
        };
        self.w.st.note("edge_drained");
        for _ in 0..self.r.range(1, 4) {
            let u = self.user();
            let lp = self.w.s.bal(&A::comet(), &u);
            let x = self.r.range(1, lp.clamp(1, 1000 * E7));
            let own = self.w.s.back[&b].ubal.get(&(*p, u)).map(|x| x.shares).unwrap_or(0);
            match self.r.below(6) {
                0 | 1 => self.send(tx(b, "deposit", vec![addr(&u), addr(p), i128v(x)], &[u])),
                2 => {
                    let y = self.r.range(1, own.max(1));
                    self.send(tx(b, "queue_withdrawal", vec![addr(&u), addr(p), i128v(y)], &[u]))
                }
                3 => {
                    let ub = self.w.s.back[&b].ubal.get(&(*p, u)).cloned().unwrap_or_default();
                    let y: i128 = ub.q4w.iter().map(|e| e.0).sum();
                    if y > 0 && self.r.pm(500) {
                        self.time(21 * 17280, 21 * 86_400);
                    }
                    let y = self.r.range(1, y.max(1));
                    self.send(tx(b, "withdraw", vec![addr(&u), addr(p), i128v(y)], &[u]))
                }
                4 => self.send(tx(*p, "update_status", vec![], &[])),
                _ => self.send(tx(b, "donate", vec![addr(&u), addr(p), i128v(x)], &[u, *p])),
            };
        }
        if self.r.pm(300) {
            self.reset_prices();
        }
    }
    fn bad_debt(&mut self) {
        let p = match self.pool() {
            Some(p) => p,
            None => return,
        };
        let b = self.w.s.pools[&p].backstop;
        // continue whatever stage the pool is in
        if self.w.s.pools[&p].auctions.contains_key(&(1, b)) {
            if self.r.pm(700) {
                self.wait_blocks();
            }
            self.fill(&p, 1, &b);
            self.drained(&p);
            return;
        }
        let owes = self.w.s.pools[&p].pos.get(&b).map(|x| !x.liab.is_empty()).unwrap_or(false);
        let bad: Vec<Addr> = self.w.s.pools[&p]
            .pos
            .iter()
            .filter(|(u, x)| **u != b && !x.liab.is_empty() && x.coll.is_empty())
            .map(|x| *x.0)
            .collect();
        if !bad.is_empty() {
            let u = *self.r.pick(&bad);
            self.send(tx(p, "bad_debt", vec![addr(&u)], &[]));
            self.other();
        }
        if owes || !bad.is_empty() {
            if self.r.pm(150) {
                // a debt worth more than the whole backstop
                self.inflate_debt(&p);
            }
            if self.send(tx(p, "new_bad_debt_auction", vec![], &[])) {
                self.other();
                if self.r.pm(250) {
                    // a slice before the lot has grown to anything
                    let f = self.user();
                    let n = *self.r.pick(&[1u32, 1, 2, 3]);
                    self.time(n, n as u64 * 5);
                    self.cushioned_fill(&p, 1, &b, &f);
                } else {
                    self.wait_blocks();
                    self.fill(&p, 1, &b);
                    self.drained(&p);
                }
            }
            return;
        }
        if self.r.pm(150) {
            let u = if self.r.pm(300) { b } else { self.user() };
            self.send(tx(p, "bad_debt", vec![addr(&u)], &[]));
            self.send(tx(p, "new_bad_debt_auction", vec![], &[]));
        }
        let wide = self.w.s.pools[&p].res_list.len() > 5 && self.r.pm(200);
        if wide {
            self.wide_batch_in(&p);
        }
        let u = match if wide { self.widest(&p) } else { self.position(&p) } {
            Some(u) => u,
            None => return,
        };
        if self.r.pm(250) {
            // a debt of a few units besides the others
            let list = self.w.s.pools[&p].res_list.clone();
            let many = self.r.pm(350);
            for _ in 0..if many { self.r.range(4, 12) } else { 1 } {
                let d = *self.r.pick(&list);
                let k = self.r.range(1, 3);
                self.exec(Op::Tx(submit(p, &u, vec![(4, d, k)])));
            }
        }
        let t = self.r.range(5, 500);
        self.squeeze(&p, &u, t);
        let full = tx(p, "new_liquidation_auction", vec![addr(&u), u64v(100)], &[]);
        if self.exec(Op::Tx(full)) {
            self.other();
            let n = *self.r.pick(&[200u32, 205, 230, 260, 300, 390]);
            self.time(n + 1, n as u64 * 5);
            self.fill(&p, 0, &u);
            self.other();
            if self.w.s.pools[&p].pos.get(&u).map(|x| !x.liab.is_empty() && x.coll.is_empty()).unwrap_or(false) {
                self.send(tx(p, "bad_debt", vec![addr(&u)], &[]));
            }
        }
        if self.r.pm(300) {
            self.reset_prices();
        }
    }

    fn interest(&mut self) {
        let p = match self.pool() {
            Some(p) => p,
            None => return,
        };
        let b = self.w.s.pools[&p].backstop;
        if self.w.s.pools[&p].auctions.contains_key(&(2, b)) && self.r.pm(900) {
            self.wait_blocks();
            self.fill(&p, 2, &b);
            return;
        }
        let list = self.w.s.pools[&p].res_list.clone();
        if list.is_empty() {
            return;
        }
        let borrowed = self.w.s.pools[&p].data.values().any(|d| d.d_supply > 0);
        if !borrowed {
            self.position(&p);
        }
        if self.r.pm(600) {
            let d = self.r.range(1, 30) as u64;
            self.time(d as u32 * 17280, d * 86_400);
        }
        if self.r.pm(300) {
            // bring the accrued values up to date
            let a = *self.r.pick(&list);
            let u = self.user();
            self.exec(Op::Tx(submit(p, &u, vec![(0, a, self.worth(&a, 100))])));
        }
        let mut l: Vec<Addr> = match self.r.below(5) {
            0 => vec![*self.r.pick(&list)],
            1 => {
                let mut l = list.clone();
                l.push(*self.r.pick(&list));
                l
            }
            _ => list.clone(),
        };
        if self.r.pm(40) {
            l.push(A::eve());
        }
        if self.r.pm(20) {
            l.clear();
        }
        let t = tx(p, "new_interest_auction", vec![vecv(l.iter().map(addr).collect())], &[]);
        // let enough credit build up
        if self.r.pm(700) {
            for _ in 0..4 {
                if self.accept(&t) {
                    break;
                }
                let d = self.r.range(5, 60) as u64;
                self.time(d as u32 * 17280, d * 86_400);
                for a in &list {
                    let u = self.user();
                    let x = self.worth(a, 100).max(10);
                    self.exec(Op::Tx(submit(p, &u, vec![(0, *a, x)])));
                }
            }
        }
        // exactly at the 200 threshold: nudge a price
        if self.r.pm(self.c.edge / 2) {
            self.interest_edge(&p, &l, &t);
        }
        if self.send(t) {
            self.other();
            if self.r.pm(800) {
                self.wait_blocks();
                self.fill(&p, 2, &b);
            }
        }
    }
    fn interest_edge(&mut self, p: &Addr, l: &[Addr], t: &Tx) {
        let o = self.w.s.pools[p].oracle;
        let a = match l.iter().find(|a| self.w.s.pools[p].data.get(a).map(|d| d.credit > 1000).unwrap_or(false)) {
            Some(a) => *a,
            None => return,
        };
        let c = match self.w.env.borrow().oracles.get(&o).and_then(|s| s.prices.get(&a).cloned()) {
            Some(x) => x.price,
            None => return,
        };
        let test = |g: &Gen, x: i128| {
            let old = g.w.env.borrow().oracles[&o].prices[&a];
            g.w.env.borrow_mut().oracles.get_mut(&o).unwrap().prices.get_mut(&a).unwrap().price = x;
            let r = g.accept(t);
            g.w.env.borrow_mut().oracles.get_mut(&o).unwrap().prices.insert(a, old);
            r
        };
        let (mut lo, mut hi) = (1, c * 8);
        if test(self, lo) || !test(self, hi) {
            return;
        }
        while hi - lo > 1 {
            let m = lo + (hi - lo) / 2;
            if test(self, m) {
                hi = m;
            } else {
                lo = m;
            }
        }
        self.w.st.note("edge_interest");
        let (x, y) = (lo, hi);
        self.exec(Op::Price { oracle: o, asset: a, price: x, feed: PFeed::Auto });
        self.exec(Op::Tx(t.clone()));
        self.exec(Op::Price { oracle: o, asset: a, price: y, feed: PFeed::Auto });
    }

    fn lp(&self, u: &Addr) -> i128 {
        self.w.s.bal(&A::comet(), u)
    }
    fn bstop(&mut self) -> Addr {
        if self.w.s.back.contains_key(&A::bstop2()) && self.r.pm(400) {
            A::bstop2()
        } else {
            A::backstop()
        }
    }
    fn backstop(&mut self) {
        let p = match self.pool() {
            Some(p) => p,
            None => return,
        };
        let b = self.bstop();
        let holders: Vec<Addr> = self.w.s.back.get(&b).map(|x| x.ubal.keys().filter(|k| k.0 == p).map(|k| k.1).collect()).unwrap_or_default();
        let u = if !holders.is_empty() && self.r.pm(750) { *self.r.pick(&holders) } else { self.user() };
        let ub = self.w.s.back.get(&b).and_then(|x| x.ubal.get(&(p, u)).cloned()).unwrap_or_default();
        let pb = self.w.s.back.get(&b).and_then(|x| x.pbal.get(&p).cloned()).unwrap_or_default();
        let queued: i128 = ub.q4w.iter().map(|e| e.0).sum();
        let odd = self.odd_amount();
        if ub.q4w.len() > 1 && self.r.pm(150) {
            // let rewards accrue while several entries wait, then touch the queue in the middle of it
            let d = self.r.range(5, 3 * 86400) as u64;
            self.time((d / 5) as u32, d);
            let k = self.r.range(1, ub.q4w.len() as i128) as usize;
            let x: i128 = ub.q4w.iter().rev().take(k).map(|e| e.0).sum();
            let x = self.jitter(x);
            self.send(tx(b, "dequeue_withdrawal", vec![addr(&u), addr(&p), i128v(x)], &[u]));
            if self.r.pm(300) {
                self.send(tx(b, "claim", vec![addr(&u), vecv(vec![addr(&p)]), addr(&u)], &[u]));
            }
            return;
        }
        match self.r.weighted(&[22, if ub.shares > 0 { 22 } else { 2 }, if queued > 0 { 14 } else { 2 }, if queued > 0 { 16 } else { 2 }, 3, 4]) {
            0 => {
                let lp = self.lp(&u);
                let x = odd.unwrap_or_else(|| match self.r.below(8) {
                    0 => self.r.log(lp.max(1)),
                    1 => self.r.range(1, 20),
                    2 => lp,
                    3 => lp + 1,
                    4 => self.threshold_gap(&pb),
                    _ => self.r.range(1, (lp / 4).max(2)),
                });
                self.send(tx(b, "deposit", vec![addr(&u), addr(&p), i128v(x)], &[u]));
            }
            1 => {
                let x = odd.unwrap_or_else(|| match self.r.below(9) {
                    0 => self.r.log(ub.shares.max(1)),
                    1 => self.r.range(1, 20),
                    2 => ub.shares,
                    3 => ub.shares + 1,
                    4 | 5 => {
                        // reach a queue share threshold exactly
                        let th = *self.r.pick(&[3_000_000i128, 5_000_000, 6_000_000, 7_500_000]);
                        let need = pb.shares * th / 10_000_000 - pb.q4w;
                        self.jitter(need).max(1).min(ub.shares.max(1))
                    }
                    _ => self.r.range(1, ub.shares.max(1)),
                });
                let n = if self.r.pm(30) { 22 } else { 1 };
                let small = (ub.shares / 50).max(1);
                for _ in 0..n {
                    let y = if n > 1 { small } else { x };
                    self.send(tx(b, "queue_withdrawal", vec![addr(&u), addr(&p), i128v(y)], &[u]));
                }
                if self.r.pm(300) {
                    self.send(tx(p, "update_status", vec![], &[]));
                }
            }
            2 => {
                let x = odd.unwrap_or_else(|| match self.r.below(6) {
                    0 => self.r.log(queued.max(1)),
                    1 => queued,
                    2 => queued + 1,
                    3 => ub.q4w.first().map(|e| e.0).unwrap_or(1),
                    _ => self.r.range(1, queued.max(1)),
                });
                self.send(tx(b, "dequeue_withdrawal", vec![addr(&u), addr(&p), i128v(x)], &[u]));
            }
            3 => {
                let now = self.w.led.ts;
                let ready: i128 = ub.q4w.iter().filter(|e| e.1 <= now).map(|e| e.0).sum();
                if ready == 0 && queued > 0 && self.r.pm(500) {
                    let k = self.r.idx(ub.q4w.len());
                    let d = (ub.q4w[k].1 as i64 - now as i64 + *self.r.pick(&[-1i64, 0, 0, 1])).max(0) as u64;
                    self.time((d / 5) as u32, d);
                }
                let now = self.w.led.ts;
                let ready: i128 = ub.q4w.iter().filter(|e| e.1 <= now).map(|e| e.0).sum();
                let x = odd.unwrap_or_else(|| match self.r.below(6) {
                    0 => self.r.log(ready.max(1)),
                    1 => queued,
                    2 => self.jitter(ready),
                    3 => ub.q4w.first().map(|e| self.r.range(1, e.0.max(1))).unwrap_or(1),
                    _ => self.r.range(1, ready.max(1)),
                });
                self.send(tx(b, "withdraw", vec![addr(&u), addr(&p), i128v(x)], &[u]));
            }
            4 => {
                self.send(tx(b, "update_tkn_val", vec![], &[]));
            }
            _ => {
                // tokens sent to the backstop outside its bookkeeping
                let x = self.r.log(1000 * E7).min(self.lp(&u));
                self.send(tx(A::comet(), "transfer", vec![addr(&u), addr(&b), i128v(x)], &[u]));
            }
        }
    }
    /// deposit that brings the pool to the activation threshold, give or take one
    fn threshold_gap(&mut self, pb: &PBal) -> i128 {
        let k = match self.w.s.back.get(&A::backstop()).and_then(|b| b.lp_val) {
            Some(v) => v,
            None => return 1,
        };
        let met = |t: i128| {
            let pd = crate::model::PoolData { tokens: t, q4w_pct: 0, blnd: t * k.0 / E7, usdc: t * k.1 / E7 };
            crate::model::M::threshold(&pd) >= E7
        };
        let (mut lo, mut hi) = (0i128, 200_000 * E7);
        if met(lo) || !met(hi) {
            return 1;
        }
        while hi - lo > 1 {
            let m = (lo + hi) / 2;
            if met(m) {
                hi = m;
            } else {
                lo = m;
            }
        }
        self.w.st.note("edge_threshold");
        (self.jitter(hi) - pb.tokens).max(1)
    }

    fn emissions(&mut self) {
        let b = self.bstop();
        match self.r.below(10) {
            0 | 1 => {
                self.send(tx(A::emitter(), "distribute", vec![], &[]));
            }
            2 | 3 => {
                if self.r.pm(600) {
                    self.send(tx(A::emitter(), "distribute", vec![], &[]));
                }
                self.send(tx(b, "gulp_emissions", vec![], &[]));
            }
            4 => {
                let s = *self.r.pick(&[3600u64, 3601, 7200, 86_400, 86_401, 604_800, 604_799, 2_000_000]);
                self.time((s / 5) as u32, s);
                self.send(tx(A::emitter(), "distribute", vec![], &[]));
                self.other();
                self.send(tx(b, "gulp_emissions", vec![], &[]));
                self.other();
                if let Some(p) = self.pool() {
                    self.send(tx(p, "gulp_emissions", vec![], &[]));
                }
            }
            5 | 6 => {
                if let Some(p) = self.pool() {
                    self.send(tx(p, "gulp_emissions", vec![], &[]));
                }
            }
            7 => {
                let rz = self.w.s.back.get(&b).map(|x| x.rz.clone()).unwrap_or_default();
                let all = self.w.pools();
                let out: Vec<Addr> = all.iter().filter(|p| !rz.contains(p)).cloned().collect();
                let add = if !out.is_empty() && self.r.pm(850) { *self.r.pick(&out) } else { *self.r.pick(&all) };
                let rem = if !rz.is_empty() && self.r.pm(850) { *self.r.pick(&rz) } else { *self.r.pick(&all) };
                if self.r.pm(600) && rz.contains(&rem) {
                    // make the newcomer just larger, equal, or just smaller
                    let (ta, tr) = self
                        .w
                        .s
                        .back
                        .get(&b)
                        .map(|x| (x.pbal.get(&add).map(|y| y.tokens).unwrap_or(0), x.pbal.get(&rem).map(|y| y.tokens).unwrap_or(0)))
                        .unwrap_or((0, 0));
                    let x = self.jitter(tr - ta);
                    let u = self.user();
                    if x > 0 && x <= self.lp(&u) {
                        self.exec(Op::Tx(tx(b, "deposit", vec![addr(&u), addr(&add), i128v(x)], &[u])));
                    }
                    if self.r.pm(600) {
                        self.exec(Op::Tx(tx(A::emitter(), "distribute", vec![], &[])));
                        self.exec(Op::Tx(tx(b, "gulp_emissions", vec![], &[])));
                        let d = *self.r.pick(&[0u64, 5, 3600, 86_399, 86_400, 86_401]);
                        self.time((d / 5) as u32, d);
                    }
                }
                self.send(tx(b, "add_reward", vec![addr(&add), addr(&rem)], &[]));
            }
            8 => {
                self.claim();
            }
            _ => {
                let p = match self.pool() {
                    Some(p) => p,
                    None => return,
                };
                let adm = self.w.s.pools[&p].admin;
                let n = self.w.s.pools[&p].res_list.len() as u32;
                let mut m = vec![];
                let mut left = 10_000_000i128;
                for _ in 0..self.r.below(2 * n as u64 + 2) {
                    let s = match self.r.below(8) {
                        0 => left,
                        1 => left + 1,
                        2 => 0,
                        _ => self.r.range(0, left),
                    };
                    left = (left - s).max(0);
                    let i = if self.r.pm(40) { n } else { self.r.below(n.max(1) as u64) as u32 };
                    let t = if self.r.pm(30) { 2 } else { self.r.below(2) as u32 };
                    m.push(structv(vec![("res_index", u32v(i)), ("res_type", u32v(t)), ("share", u64v(s as u64))]));
                }
                if self.r.pm(30) {
                    m.push(structv(vec![("res_index", u32v(0)), ("res_type", u32v(0)), ("share", u64v(u64::MAX))]));
                }
                self.send(tx(p, "set_emissions_config", vec![vecv(m)], &[adm]));
            }
        }
    }
    fn claim(&mut self) {
        if self.r.pm(500) {
            let p = match self.pool() {
                Some(p) => p,
                None => return,
            };
            let us: Vec<Addr> = self.w.s.pools[&p].pos.keys().cloned().filter(|u| self.w.p.users.contains(u)).collect();
            let u = if us.is_empty() { self.user() } else { *self.r.pick(&us) };
            let to = if self.r.pm(250) { self.user() } else { u };
            let n = 2 * self.w.s.pools[&p].res_list.len() as u32;
            let mut ids: Vec<u32> = vec![];
            for i in 0..n {
                if self.r.pm(700) {
                    ids.push(i);
                }
            }
            if self.r.pm(150) && !ids.is_empty() {
                ids.push(ids[0]);
            }
            if self.r.pm(40) {
                ids.push(n + self.r.below(3) as u32);
            }
            self.send(tx(p, "claim", vec![addr(&u), vecv(ids.iter().map(|x| u32v(*x)).collect()), addr(&to)], &[u]));
        } else {
            let b = self.bstop();
            let keys: Vec<(Addr, Addr)> = self.w.s.back.get(&b).map(|x| x.ubal.keys().cloned().collect()).unwrap_or_default();
            if keys.is_empty() {
                return;
            }
            let u = self.r.pick(&keys).1;
            let to = if self.r.pm(400) { self.user() } else { u };
            let mut l: Vec<Addr> = keys.iter().filter(|k| k.1 == u).map(|k| k.0).collect();
            if self.r.pm(300) {
                l.truncate(1 + self.r.idx(l.len()));
            }
            if self.r.pm(200) {
                let x = *self.r.pick(&l);
                l.push(x);
            }
            if self.r.pm(100) {
                if let Some(p) = self.pool() {
                    l.insert(0, p);
                }
            }
            if self.r.pm(20) {
                l.clear();
            }
            self.send(tx(b, "claim", vec![addr(&u), vecv(l.iter().map(addr).collect()), addr(&to)], &[u]));
        }
    }

    fn admin(&mut self) {
        let p = match self.pool() {
            Some(p) => p,
            None => return,
        };
        let adm = self.w.s.pools[&p].admin;
        let queued: Vec<(Addr, u64)> = self.w.s.pools[&p].queued.iter().map(|(a, q)| (*a, q.1)).collect();
        match self.r.weighted(&[16, if queued.is_empty() { 1 } else { 16 }, if queued.is_empty() { 1 } else { 4 }, 5, 5]) {
            0 => {
                let assets = self.w.p.assets.clone();
                let a = self.r.pick(&assets).clone();
                let cur = self.w.s.pools[&p].cfg.get(&a.id).cloned();
                let mut c = match cur {
                    Some(c) if self.r.pm(700) => {
                        let mut c = c;
                        match self.r.below(12) {
                            0 => c.c_factor = self.r.range(30, 95) as u32 * 100_000,
                            8 => c.r_two = self.r.range(c.r_one as i128, c.r_three as i128) as u32,
                            9 => c.max_util = self.r.range(c.util as i128 + 1, 10_000_000) as u32,
                            10 => {
                                c.c_factor = 0;
                                if self.r.pm(100) {
                                    c.l_factor = 0;
                                }
                            }
                            11 => c.reactivity = 1000,
                            1 => c.l_factor = self.r.range(60, 100) as u32 * 100_000,
                            2 => c.max_util = 10_000_000,
                            3 => c.r_one += 1,
                            4 => c.r_three += 10_000,
                            5 => c.util = if self.r.pm(100) { self.r.below(3) as u32 } else { self.r.range(30, 90) as u32 * 100_000 },
                            6 => c.reactivity = self.r.range(0, 1000) as u32,
                            _ => c.r_base = self.r.range(1000, 500_000) as u32,
                        }
                        c
                    }
                    _ => any_cfg(&mut self.r, a.dec),
                };
                if self.r.pm(350) {
                    // validation edges
                    match self.r.below(14) {
                        0 => c.decimals = 18,
                        1 => c.decimals = 19,
                        2 => c.c_factor = 10_000_001,
                        3 => c.l_factor = 10_000_001,
                        4 => c.util = 9_500_001,
                        5 => c.max_util = 10_000_001,
                        6 => c.max_util = c.util,
                        7 => c.r_base = 999,
                        8 => c.r_base = 10_000_000,
                        9 => {
                            c.r_one = c.r_two + 1;
                        }
                        10 => c.r_three = c.r_two.saturating_sub(1),
                        11 => c.reactivity = 1001,
                        12 => c.decimals = a.dec + 1,
                        _ => c.util = 9_500_000,
                    }
                }
                c.index = self.r.below(3) as u32;
                self.send(tx(p, "queue_set_reserve", vec![addr(&a.id), rescfg_sc(&c)], &[adm]));
                if self.r.pm(400) {
                    let d = *self.r.pick(&[WEEK - 1, WEEK, WEEK, WEEK + 1, 3 * 86_400, 40 * 86_400, 90 * 86_400]);
                    self.time((d / 5) as u32, d);
                    self.other();
                    self.send(tx(p, "set_reserve", vec![addr(&a.id)], &[]));
                }
            }
            1 => {
                if let Some((a, unlock)) = queued.first().cloned() {
                    let now = self.w.led.ts;
                    if unlock > now && self.r.pm(600) {
                        let d = (unlock as i64 - now as i64 + *self.r.pick(&[-1i64, 0, 0, 0, 1])).max(0) as u64;
                        self.time((d / 5) as u32, d);
                    }
                    self.send(tx(p, "set_reserve", vec![addr(&a)], &[]));
                    if self.r.pm(100) {
                        self.send(tx(p, "set_reserve", vec![addr(&a)], &[]));
                    }
                } else if let Some(a) = self.asset(&p) {
                    self.send(tx(p, "set_reserve", vec![addr(&a)], &[]));
                }
            }
            2 => {
                let a = queued.first().map(|x| x.0).or(self.asset(&p));
                if let Some(a) = a {
                    self.send(tx(p, "cancel_set_reserve", vec![addr(&a)], &[adm]));
                }
            }
            3 => {
                let rate = *self.r.pick(&[0u32, 1_000_000, 2_000_000, 9_999_999, 10_000_000, 5_000_000, u32::MAX]);
                let mp = if self.r.pm(200) { *self.r.pick(&[0u32, 1, 1, 59, 60, 61, u32::MAX]) } else { self.r.range(2, 10) as u32 };
                self.send(tx(p, "update_pool", vec![u32v(rate), u32v(mp)], &[adm]));
            }
            _ => {
                let n = if self.r.pm(500) { Addr::tag("padmin9") } else { self.user() };
                let signers = match self.r.below(4) {
                    0 => vec![adm],
                    1 => vec![n],
                    _ => vec![adm, n],
                };
                self.send(tx(p, "set_admin", vec![addr(&n)], &signers));
            }
        }
    }

    fn status(&mut self) {
        let p = match self.pool() {
            Some(p) => p,
            None => return,
        };
        let adm = self.w.s.pools[&p].admin;
        if self.r.pm(300) {
            // move the queued share to a boundary
            let b = A::backstop();
            let pb = self.w.s.back.get(&b).and_then(|x| x.pbal.get(&p).cloned()).unwrap_or_default();
            let holders: Vec<(Addr, i128)> = self.w.s.back.get(&b).map(|x| x.ubal.iter().filter(|(k, v)| k.0 == p && v.shares > 0).map(|(k, v)| (k.1, v.shares)).collect()).unwrap_or_default();
            if !holders.is_empty() {
                let th = *self.r.pick(&[3_000_000i128, 5_000_000, 6_000_000, 7_500_000]);
                let mut need = pb.shares * th / 10_000_000 - pb.q4w;
                need = self.jitter(need);
                for (u, sh) in holders {
                    if need <= 0 {
                        break;
                    }
                    let x = need.min(sh);
                    need -= x;
                    self.exec(Op::Tx(tx(b, "queue_withdrawal", vec![addr(&u), addr(&p), i128v(x)], &[u])));
                }
                self.w.st.note("edge_status");
            }
        }
        if self.r.pm(100) {
            let pb = self.w.s.back.get(&A::backstop()).and_then(|x| x.pbal.get(&p).cloned()).unwrap_or_default();
            let x = self.threshold_gap(&pb);
            let u = self.user();
            if x > 1 && x < self.lp(&u) {
                self.exec(Op::Tx(tx(A::backstop(), "deposit", vec![addr(&u), addr(&p), i128v(x)], &[u])));
            }
        }
        match self.r.below(5) {
            0 | 1 => {
                self.send(tx(p, "update_status", vec![], &[]));
            }
            2 | 3 => {
                let s = *self.r.pick(&[0u32, 0, 0, 2, 2, 3, 4, 1, 5, 6, 7]);
                self.send(tx(p, "set_status", vec![u32v(s)], &[adm]));
                if self.r.pm(500) {
                    self.send(tx(p, "update_status", vec![], &[]));
                }
            }
            _ => {
                let u = self.user();
                if let Some(a) = self.asset(&p) {
                    let ty = *self.r.pick(&[0u32, 1, 2, 3, 4, 5, 4]);
                    let x = self.worth(&a, 5000);
                    self.send(submit(p, &u, vec![(ty, a, x)]));
                }
            }
        }
    }

    fn swap(&mut self) {
        let e = A::emitter();
        let es = match self.w.s.emit.get(&e) {
            Some(x) => x.clone(),
            None => return,
        };
        if es.backstop == A::bstop2() {
            // already replaced: the newcomer starts up
            if !self.w.s.back.contains_key(&A::bstop2()) && self.r.pm(700) {
                let u = self.w.p.users.clone();
                let max = 50_000_000 * E7;
                let l: Vec<i128> = match self.r.below(7) {
                    6 => {
                        // many receivers
                        let n = self.r.range(5, 24);
                        let mut l: Vec<i128> = (0..n).map(|_| max / n).collect();
                        let i = self.r.below(n as u64) as usize;
                        l[i] += max % n + *self.r.pick(&[-1i128, 0, 1, 1, E7]);
                        l
                    }
                    0 => vec![max],
                    1 => vec![max + 1],
                    2 => vec![max + self.r.range(1, E7 - 1)],
                    3 => vec![max / 2, max / 2 + self.r.range(-1, 1)],
                    4 => vec![max - 1, 1, self.r.range(0, 1)],
                    _ => vec![10_000_000 * E7],
                };
                let dl = vecv(l.iter().enumerate().map(|(i, x)| vecv(vec![addr(&u[i % u.len()]), i128v(*x)])).collect());
                self.send(tx(
                    A::bstop2(),
                    "initialize",
                    vec![addr(&A::comet()), addr(&e), addr(&A::usdc()), addr(&A::blnd()), addr(&A::factory()), dl],
                    &[],
                ));
                self.send(tx(A::bstop2(), "update_tkn_val", vec![], &[]));
                return;
            }
            if self.w.s.back.contains_key(&A::bstop2()) {
                match self.r.below(4) {
                    0 => {
                        self.send(tx(A::bstop2(), "drop", vec![], &[]));
                    }
                    1 => {
                        if let Some(p) = self.pool() {
                            let u = self.user();
                            self.send(tx(A::bstop2(), "deposit", vec![addr(&u), addr(&p), i128v(50_000 * E7)], &[u]));
                            self.send(tx(A::bstop2(), "add_reward", vec![addr(&p), addr(&p)], &[]));
                        }
                    }
                    _ => {
                        self.send(tx(A::emitter(), "distribute", vec![], &[]));
                        self.send(tx(A::bstop2(), "gulp_emissions", vec![], &[]));
                    }
                }
            }
        }
        let cand = if es.backstop == A::bstop2() { Addr::tag("bstop3") } else { A::bstop2() };
        let (hb, hc) = (self.lp(&es.backstop), self.lp(&cand));
        match self.r.below(9) {
            0 | 1 | 2 => {
                // candidate gains tokens: just above, equal, or below
                let need = self.jitter(hb - hc);
                let whale = A::whale();
                if need > 0 && need < self.lp(&whale) {
                    self.send(tx(A::comet(), "transfer", vec![addr(&whale), addr(&cand), i128v(need)], &[whale]));
                }
                let tk = if self.r.pm(150) { *self.r.pick(&[A::usdc(), A::blnd()]) } else { A::comet() };
                self.send(tx(e, "queue_swap_backstop", vec![addr(&cand), addr(&tk)], &[]));
            }
            3 => {
                // candidate loses tokens again
                let x = if self.r.pm(500) { hc } else { (hc - hb).max(1) };
                self.send(tx(A::comet(), "transfer", vec![addr(&cand), addr(&A::whale()), i128v(x)], &[cand]));
                self.send(tx(e, "cancel_swap_backstop", vec![], &[]));
            }
            4 => {
                self.send(tx(e, "cancel_swap_backstop", vec![], &[]));
            }
            5 | 6 | 7 => {
                if let Some(s) = &es.swap {
                    let now = self.w.led.ts;
                    if s.2 > now && self.r.pm(700) {
                        let d = (s.2 as i64 - now as i64 + *self.r.pick(&[-1i64, 0, 0, 0, 1])).max(0) as u64;
                        self.time((d / 5) as u32, d);
                        self.other();
                    }
                }
                if self.r.pm(300) {
                    // re-balance to the edge at execution time
                    let need = self.jitter(self.lp(&es.backstop) - self.lp(&cand));
                    let whale = A::whale();
                    if need > 0 && need < self.lp(&whale) {
                        self.send(tx(A::comet(), "transfer", vec![addr(&whale), addr(&cand), i128v(need)], &[whale]));
                    } else if need < 0 {
                        self.send(tx(A::comet(), "transfer", vec![addr(&cand), addr(&whale), i128v(-need)], &[cand]));
                    }
                }
                self.send(tx(e, "swap_backstop", vec![], &[]));
            }
            _ => {
                self.send(tx(e, "distribute", vec![], &[]));
                if self.r.pm(300) {
                    self.send(tx(A::backstop(), "drop", vec![], &[]));
                }
            }
        }
    }

    fn factory(&mut self) {
        match self.r.below(8) {
            0 | 1 | 2 => {
                let adm = self.user();
                let used = !self.w.salts.is_empty() && self.r.pm(250);
                let oracles = self.w.p.oracles.clone();
                let o = *self.r.pick(&oracles);
                let rate = *self.r.pick(&[0u32, 1_000_000, 9_999_999, 10_000_000, 2_000_000]);
                let mp = *self.r.pick(&[0u32, 1, 2, 4, 8, 12, 30, 60, 61]);
                let salt = if used { self.r.below(self.salt + 1) } else { self.salt };
                self.salt += 1;
                let salt = if self.r.pm(200) { self.r.below(3) } else { salt };
                let mut t = deploy_tx(&adm, "new", salt, &o, rate, mp);
                if self.r.pm(100) {
                    t.signers = vec![A::eve()];
                }
                let again = self.r.pm(250);
                self.send(t);
                if again {
                    // another deployer with the same salt
                    let other = self.user();
                    let t = deploy_tx(&other, "new", salt, &o, rate, mp);
                    self.send(t);
                }
            }
            3 => {
                // re-initialise something
                let ps = self.w.pools();
                let p = *self.r.pick(&ps);
                let eve = A::eve();
                let t = match self.r.below(4) {
                    0 => tx(
                        p,
                        "initialize",
                        vec![addr(&eve), strv("x"), addr(&eve), u32v(0), u32v(4), addr(&eve), addr(&eve)],
                        &[eve],
                    ),
                    1 => tx(A::emitter(), "initialize", vec![addr(&eve), addr(&eve), addr(&eve)], &[eve]),
                    2 => tx(
                        A::backstop(),
                        "initialize",
                        vec![addr(&A::comet()), addr(&A::emitter()), addr(&eve), addr(&eve), addr(&eve), vecv(vec![])],
                        &[eve],
                    ),
                    _ => tx(
                        A::factory(),
                        "initialize",
                        vec![structv(vec![("backstop", addr(&eve)), ("pool_hash", bytesv(&H_POOL)), ("blnd_id", addr(&eve))])],
                        &[eve],
                    ),
                };
                self.send(t);
            }
            4 => {
                // a pool outside the factory
                let eve = A::eve();
                let r = A::rogue();
                if !self.w.s.pools.contains_key(&r) {
                    let o = self.w.p.oracles[0];
                    let rate = *self.r.pick(&[0u32, 10_000_000, 1_000_000]);
                    let mp = *self.r.pick(&[1u32, 4]);
                    self.send(tx(
                        r,
                        "initialize",
                        vec![addr(&eve), strv("rogue"), addr(&o), u32v(rate), u32v(mp), addr(&A::backstop()), addr(&A::blnd())],
                        &[eve],
                    ));
                } else {
                    let u = self.user();
                    match self.r.below(5) {
                        0 => {
                            self.send(tx(A::backstop(), "deposit", vec![addr(&u), addr(&r), i128v(1000 * E7)], &[u]));
                        }
                        1 => {
                            self.send(tx(A::backstop(), "add_reward", vec![addr(&r), addr(&r)], &[]));
                        }
                        2 => {
                            self.send(tx(r, "gulp_emissions", vec![], &[]));
                        }
                        3 => {
                            let c = any_cfg(&mut self.r, 7);
                            self.send(tx(r, "queue_set_reserve", vec![addr(&A::usdc()), rescfg_sc(&c)], &[eve]));
                            self.send(tx(r, "set_reserve", vec![addr(&A::usdc())], &[]));
                        }
                        _ => {
                            self.send(tx(r, "update_status", vec![], &[]));
                        }
                    }
                }
            }
            5 => {
                let u = self.user();
                let who = *self.r.pick(&[A::eve(), A::admin(), A::backstop(), A::rogue()]);
                let (u, x) = match self.r.below(6) {
                    0 => (u, self.lp(&u)),
                    1 => (A::whale(), self.lp(&A::whale())),
                    2 => (u, 1),
                    _ => (u, 100 * E7),
                };
                let f = if self.r.pm(200) { "donate" } else { "deposit" };
                self.send(tx(A::backstop(), f, vec![addr(&u), addr(&who), i128v(x)], &[u, who]));
            }
            6 => {
                // set up a freshly deployed pool
                let ps: Vec<Addr> = self.w.s.pools.iter().filter(|(_, x)| x.status == 6).map(|x| *x.0).collect();
                if ps.is_empty() {
                    return;
                }
                let p = *self.r.pick(&ps);
                let adm = self.w.s.pools[&p].admin;
                let assets = self.w.p.assets.clone();
                for _ in 0..2 {
                    let a = self.r.pick(&assets).clone();
                    let c = any_cfg(&mut self.r, a.dec);
                    self.send(tx(p, "queue_set_reserve", vec![addr(&a.id), rescfg_sc(&c)], &[adm]));
                    self.send(tx(p, "set_reserve", vec![addr(&a.id)], &[]));
                }
                let u = self.user();
                self.send(tx(A::backstop(), "deposit", vec![addr(&u), addr(&p), i128v(50_000 * E7)], &[u]));
                self.send(tx(p, "update_status", vec![], &[]));
                self.send(tx(p, "set_status", vec![u32v(3)], &[adm]));
                self.send(tx(p, "update_status", vec![], &[]));
            }
            _ => {
                let mut l = self.w.pools();
                l.push(A::eve());
                l.push(A::rogue());
                let x = *self.r.pick(&l);
                self.send(tx(A::factory(), "is_pool", vec![addr(&x)], &[]));
            }
        }
    }

    fn comet(&mut self) {
        let u = if self.r.pm(300) { A::whale() } else { self.user() };
        let c = A::comet();
        match self.r.below(4) {
            0 => {
                let x = self.r.range(1, 100_000) * E7;
                self.send(tx(c, "join_pool", vec![i128v(x), vecv(vec![i128v(x * 20), i128v(x)]), addr(&u)], &[u]));
            }
            1 => {
                let x = self.r.range(1, (self.lp(&u) / 3).max(2));
                self.send(tx(c, "exit_pool", vec![i128v(x), vecv(vec![i128v(0), i128v(0)]), addr(&u)], &[u]));
            }
            _ => {
                let (a, b) = if self.r.pm(500) { (A::blnd(), A::usdc()) } else { (A::usdc(), A::blnd()) };
                let have = self.w.s.bal(&a, &u);
                let pool = self.w.s.bal(&a, &c);
                let x = self.r.range(1, (have.min(pool / 4)).max(2));
                self.send(tx(
                    c,
                    "swap_exact_amount_in",
                    vec![addr(&a), i128v(x), addr(&b), i128v(0), i128v(i64::MAX as i128 * 1000), addr(&u)],
                    &[u],
                ));
            }
        }
        if self.r.pm(500) {
            self.send(tx(A::backstop(), "update_tkn_val", vec![], &[]));
        }
    }

    fn attack(&mut self) {
        let eve = A::eve();
        let v = self.user();
        let p = match self.pool() {
            Some(p) => p,
            None => return,
        };
        let b = A::backstop();
        let a = match self.asset(&p) {
            Some(a) => a,
            None => return,
        };
        let who = if self.r.pm(700) { eve } else { self.user() };
        let s: Vec<Addr> = match self.r.below(4) {
            0 => vec![],
            _ => vec![who],
        };
        let x = self.worth(&a, 10_000);
        let pos = self.w.s.pools[&p].pos.get(&v).cloned().unwrap_or_default();
        let list = self.w.s.pools[&p].res_list.clone();
        let t = match self.r.below(26) {
            0 => submit3(p, &v, &v, &who, vec![(3, pos.coll.keys().next().map(|i| list[*i as usize]).unwrap_or(a), x)], &s),
            1 => submit3(p, &v, &v, &who, vec![(1, pos.supp.keys().next().map(|i| list[*i as usize]).unwrap_or(a), x)], &s),
            2 => submit3(p, &v, &who, &who, vec![(4, a, x)], &s),
            3 => submit3(p, &who, &v, &who, vec![(0, a, x)], &s),
            4 => submit3(p, &who, &v, &who, vec![(2, a, x)], &[who]),
            5 => submit3(p, &v, &who, &who, vec![(0, a, x), (1, a, x)], &[who]),
            6 => tx(p, "claim", vec![addr(&v), vecv((0..2 * list.len() as u32).map(u32v).collect()), addr(&who)], &s),
            7 => tx(b, "claim", vec![addr(&v), vecv(vec![addr(&p)]), addr(&who)], &s),
            8 => tx(b, "deposit", vec![addr(&v), addr(&p), i128v(1000 * E7)], &s),
            9 => tx(b, "queue_withdrawal", vec![addr(&v), addr(&p), i128v(10)], &s),
            10 => tx(b, "dequeue_withdrawal", vec![addr(&v), addr(&p), i128v(10)], &s),
            11 => tx(b, "withdraw", vec![addr(&v), addr(&p), i128v(10)], &s),
            12 => tx(b, "draw", vec![addr(&p), i128v(100 * E7), addr(&who)], &s),
            13 => tx(b, "donate", vec![addr(&v), addr(&p), i128v(100 * E7)], &s),
            14 => tx(b, "gulp_pool_emissions", vec![addr(&p)], &s),
            15 => tx(p, "set_admin", vec![addr(&who)], &s),
            16 => tx(p, "update_pool", vec![u32v(0), u32v(2)], &s),
            17 => {
                let c = any_cfg(&mut self.r, 7);
                tx(p, "queue_set_reserve", vec![addr(&a), rescfg_sc(&c)], &s)
            }
            18 => tx(p, "cancel_set_reserve", vec![addr(&a)], &s),
            19 => tx(p, "set_status", vec![u32v(*self.r.pick(&[0u32, 2, 3, 4]))], &s),
            20 => tx(p, "set_emissions_config", vec![vecv(vec![])], &s),
            21 => tx(A::emitter(), "drop", vec![vecv(vec![vecv(vec![addr(&who), i128v(1_000_000 * E7)])])], &s),
            22 => tx(A::blnd(), "mint", vec![addr(&who), i128v(E7)], &s),
            23 => deploy_tx(&v, "steal", self.r.below(4), &self.w.p.oracles[0].clone(), 0, 4),
            24 => submit3(p, &who, &who, &who, vec![(9, v, 0)], &[who]),
            _ => submit3(p, &p, &who, &who, vec![(1, a, x)], &[who]),
        };
        let mut t = t;
        if t.func == "deploy" {
            t.signers = s.clone();
        }
        // also the odd recipients and senders
        if self.r.pm(80) {
            let w2 = if self.r.pm(500) { p } else { b };
            t = match self.r.below(4) {
                0 => submit3(p, &v, &v, &w2, vec![(0, a, x), (1, a, x / 2)], &[v]),
                1 => tx(p, "claim", vec![addr(&v), vecv((0..2 * list.len() as u32).map(u32v).collect()), addr(&w2)], &[v]),
                2 => tx(b, "claim", vec![addr(&v), vecv(vec![addr(&p)]), addr(&w2)], &[v]),
                _ => submit3(p, &v, &w2, &v, vec![(0, a, x)], &[v]),
            };
        }
        self.send(t);
    }

    /// rare states that need several coordinated steps
    fn corner(&mut self) {
        self.w.st.note("corner");
        let mut k = self.r.below(10);
        if self.r.pm(250) {
            // what this property depends on most
            k = match self.prop.as_deref().unwrap_or("") {
                "C20" => 3,
                "C06" => 8,
                "C17" | "C19" => 2,
                "C07" => 6,
                "C10" => 7,
                "C15" => 9,
                "C23" => 4,
                _ => k,
            };
        }
        match k {
            0 if self.r.pm(180) => self.huge_backstop(),
            8 => {
                if self.r.pm(500) {
                    self.wide_batch()
                } else {
                    self.over_utilised()
                }
            }
            0 | 1 => self.dust(),
            9 => self.all_sides(),
            2 => self.empty_backstop(),
            3 => self.full_zone(),
            4 => self.outsider(),
            5 => self.exact_repay(),
            6 => {
                if self.r.pm(300) {
                    self.many_reserves()
                } else {
                    self.exact_threshold()
                }
            }
            _ => self.fill_race(),
        }
    }
    /// one account on every side of one reserve: supply, collateral and debt at once, changed one by one and together
    fn all_sides(&mut self) {
        let p = match self.pool() {
            Some(p) => p,
            None => return,
        };
        let now = self.w.led.ts;
        let x = &self.w.s.pools[&p];
        let list = x.res_list.clone();
        let cols: Vec<Addr> = list.iter().filter(|a| x.cfg[*a].c_factor > 0).cloned().collect();
        let live: Vec<Addr> = x
            .ecfg
            .iter()
            .filter(|(_, c)| c.0 > now && c.1 > 0)
            .filter_map(|(k, _)| list.get(*k as usize / 2).cloned())
            .collect();
        if list.is_empty() || cols.is_empty() {
            return;
        }
        let a = if live.is_empty() { *self.r.pick(&list) } else { *self.r.pick(&live) };
        let i = list.iter().position(|y| *y == a).unwrap() as u32;
        let c = *self.r.pick(&cols);
        let u = self.user();
        self.w.st.note("edge_all_sides");
        let v = self.worth(&c, 50_000_000);
        self.exec(Op::Tx(submit(p, &u, vec![(2, c, v)])));
        let cents = self.r.range(100_000, 3_000_000);
        let big = self.worth(&a, cents).max(3);
        let mut open = vec![(0, a, big), (2, a, big / 2 + 1), (4, a, big / 4 + 1)];
        for j in (1..open.len()).rev() {
            let k = self.r.idx(j + 1);
            open.swap(j, k);
        }
        if self.r.pm(400) {
            self.exec(Op::Tx(submit(p, &u, open)));
        } else {
            for q in open {
                self.exec(Op::Tx(submit(p, &u, vec![q])));
            }
        }
        for _ in 0..self.r.range(3, 8) {
            let d = *self.r.pick(&[0u64, 5, 60, 3600, 86_400, 500_000]);
            if d > 0 {
                self.time((d / 5) as u32, d);
            }
            let pos = self.w.s.pools[&p].pos.get(&u).cloned().unwrap_or_default();
            let mut q = vec![];
            for _ in 0..self.r.range(1, 4) {
                let ty = *self.r.pick(&[0u32, 1, 1, 2, 3, 3, 4, 5, 5]);
                let held = match ty {
                    1 => pos.supp.get(&i).cloned().unwrap_or(0),
                    3 => pos.coll.get(&i).cloned().unwrap_or(0),
                    5 => pos.liab.get(&i).cloned().unwrap_or(0),
                    _ => big / 3,
                };
                let amt = match self.r.below(4) {
                    0 if ty == 1 || ty == 3 || ty == 5 => held * 2 + 1,
                    1 => held,
                    _ => {
                        let k = self.r.range(2, 20);
                        held / k
                    }
                };
                q.push((ty, a, amt.max(1)));
            }
            self.exec(Op::Tx(submit(p, &u, q)));
            if self.r.pm(250) {
                self.send(tx(p, "claim", vec![addr(&u), vecv(vec![u32v(2 * i), u32v(2 * i + 1)]), addr(&u)], &[u]));
            }
        }
    }
    /// one batch that opens as many positions as are allowed, and one more
    fn wide_batch(&mut self) {
        if let Some(p) = self.pool() {
            self.wide_batch_in(&p);
        }
    }
    /// the account with positions in most reserves
    fn widest(&mut self, p: &Addr) -> Option<Addr> {
        let x = &self.w.s.pools[p];
        x.pos
            .iter()
            .filter(|(u, _)| self.w.p.users.contains(u))
            .max_by_key(|(_, y)| y.coll.len() + y.liab.len())
            .map(|y| *y.0)
    }
    /// the price of one of many assets an account holds or owes is stale or missing
    fn wide_stale(&mut self) {
        let p = match self.pool() {
            Some(p) => p,
            None => return,
        };
        self.wide_batch_in(&p);
        let u = match self.widest(&p) {
            Some(u) => u,
            None => return,
        };
        let pos = self.w.s.pools[&p].pos[&u].clone();
        let mut held: Vec<u32> = pos.coll.keys().chain(pos.liab.keys()).cloned().collect();
        held.sort();
        held.dedup();
        if held.len() < 4 {
            return;
        }
        if self.r.pm(400) {
            let t = self.r.range(500, 1100);
            self.squeeze(&p, &u, t);
        }
        let list = self.w.s.pools[&p].res_list.clone();
        let o = self.w.s.pools[&p].oracle;
        let i = if self.r.pm(500) { *held.last().unwrap() } else { *self.r.pick(&held) };
        let a = list[i as usize];
        let cur = match self.w.env.borrow().oracles.get(&o).and_then(|s| s.prices.get(&a).map(|x| x.price)) {
            Some(x) => x,
            None => return,
        };
        self.w.st.note("edge_wide_stale");
        let f = *self.r.pick(&[PFeed::Missing, PFeed::Age(86_401), PFeed::Age(86_400), PFeed::Age(90_000), PFeed::Age(200_000)]);
        self.exec(Op::Price { oracle: o, asset: a, price: cur, feed: f });
        for _ in 0..self.r.range(1, 4) {
            let b = list[*self.r.pick(&held) as usize];
            let c = self.r.range(1, 500);
            let x = self.worth(&b, c).max(1);
            match self.r.below(6) {
                0 => {
                    let pct = self.r.range(1, 100) as u64;
                    self.exec(Op::Tx(tx(p, "new_liquidation_auction", vec![addr(&u), u64v(pct)], &[])));
                }
                1 => {
                    self.new_liq(&p, &u);
                }
                2 | 3 => {
                    self.exec(Op::Tx(submit(p, &u, vec![(3, b, x)])));
                }
                _ => {
                    self.exec(Op::Tx(submit(p, &u, vec![(4, b, x)])));
                }
            }
        }
        self.exec(Op::Price { oracle: o, asset: a, price: cur, feed: PFeed::Auto });
    }
    fn wide_batch_in(&mut self, p: &Addr) {
        let p = *p;
        let u = self.user();
        let x = &self.w.s.pools[&p];
        let list = x.res_list.clone();
        let max = x.max_positions as usize;
        let pos = x.pos.get(&u).cloned().unwrap_or_default();
        let cols: Vec<usize> = (0..list.len()).filter(|i| x.cfg[&list[*i]].c_factor > 0).collect();
        if cols.is_empty() || max == 0 {
            return;
        }
        let held = pos.coll.len() + pos.liab.len();
        let c = *self.r.pick(&cols);
        // everything that may be opened, in an order of this run's own
        let mut left: Vec<(u32, usize)> = vec![];
        for i in 0..list.len() {
            if i != c && !pos.coll.contains_key(&(i as u32)) && self.r.pm(500) {
                left.push((2, i));
            }
            if !pos.liab.contains_key(&(i as u32)) {
                left.push((4, i));
            }
        }
        for i in (1..left.len()).rev() {
            let j = self.r.idx(i + 1);
            left.swap(i, j);
        }
        let first = usize::from(!pos.coll.contains_key(&(c as u32)));
        let want = (max + 1).saturating_sub(held + first).max(1);
        if left.len() < want && self.r.pm(800) {
            return;
        }
        left.truncate(want);
        for (ty, i) in left.iter() {
            if *ty == 4 {
                let who = self.user();
                let v = self.worth(&list[*i], 100_000);
                self.exec(Op::Tx(submit(p, &who, vec![(0, list[*i], v)])));
            }
        }
        let v = self.worth(&list[c], 20_000_000);
        let mut q = vec![(2, list[c], v)];
        for (ty, i) in left.iter() {
            let c = self.r.range(10, 5_000);
            let amt = self.worth(&list[*i], c).max(1);
            q.push((*ty, list[*i], amt));
        }
        self.w.st.note("edge_wide_batch");
        if self.r.pm(300) {
            // the collateral beforehand, the rest together
            self.exec(Op::Tx(submit(p, &u, vec![q[0]])));
            q.remove(0);
        }
        self.exec(Op::Tx(submit(p, &u, q.clone())));
        match self.r.below(3) {
            0 => {
                // one opened and closed again within the batch
                let (ty, a, amt) = *q.last().unwrap();
                let mut z = q.clone();
                z.push((if ty == 4 { 5 } else { 3 }, a, amt * 2));
                self.exec(Op::Tx(submit(p, &u, z)));
            }
            _ => {
                let l = q.pop().unwrap();
                if !q.is_empty() {
                    self.exec(Op::Tx(submit(p, &u, q)));
                }
                self.exec(Op::Tx(submit(p, &u, vec![l])));
            }
        }
    }
    /// borrowing a trifle from a reserve that is lent out to its limit, at it and past it
    fn over_utilised(&mut self) {
        let p = match self.pool() {
            Some(p) => p,
            None => return,
        };
        let u = match self.position(&p) {
            Some(u) => u,
            None => return,
        };
        let list = self.w.s.pools[&p].res_list.clone();
        let pos = self.w.s.pools[&p].pos.get(&u).cloned().unwrap_or_default();
        let ls: Vec<u32> = pos.liab.keys().cloned().collect();
        if ls.is_empty() {
            return;
        }
        let a = list[*self.r.pick(&ls) as usize];
        let cs: Vec<Addr> = list.iter().filter(|x| **x != a && self.w.s.pools[&p].cfg[*x].c_factor > 0).cloned().collect();
        if cs.is_empty() {
            return;
        }
        let c = *self.r.pick(&cs);
        let v = self.worth(&c, 300_000_000).min(self.w.s.bal(&c, &u));
        if v > 0 {
            self.exec(Op::Tx(submit(p, &u, vec![(2, c, v)])));
        }
        let hi = self.w.s.bal(&a, &p) + 1;
        let mk = |x: i128| submit(p, &u, vec![(4, a, x)]);
        if let Some(b) = self.boundary(1, hi, &mk) {
            self.exec(Op::Tx(mk(b + 1)));
            self.exec(Op::Tx(mk(b)));
        }
        self.w.st.note("edge_over_utilised");
        if self.r.pm(600) {
            let d = *self.r.pick(&[5u64, 600, 86_400, 2_000_000]);
            self.time((d / 5) as u32, d);
        }
        let w = *self.r.pick(&[u, u, self.w.p.users[0]]);
        for x in [1, self.r.range(1, 20)] {
            self.exec(Op::Tx(submit(p, &w, vec![(4, a, x)])));
        }
        match self.r.below(4) {
            0 => {
                // taken and given back in one batch
                let x = self.r.range(1, 1000);
                self.exec(Op::Tx(submit(p, &w, vec![(5, a, x), (4, a, x)])));
            }
            1 => {
                let x = self.r.range(1, 1000);
                self.exec(Op::Tx(submit(p, &w, vec![(4, a, x), (5, a, x)])));
            }
            2 => {
                // leaving makes it worse and stays allowed
                let x = self.r.range(1, 1000);
                self.exec(Op::Tx(submit(p, &w, vec![(3, a, x), (1, a, x)])));
            }
            _ => (),
        }
    }
    /// one pool whose backstop is so large that its product constant does not fit in 128 bits
    fn huge_backstop(&mut self) {
        let (c, b, wh) = (A::comet(), A::backstop(), A::whale());
        if !self.w.s.back.contains_key(&b) {
            return;
        }
        if self.r.pm(400) {
            let adm = self.user();
            let o = self.w.p.oracles[0];
            self.salt += 1;
            self.exec(Op::Tx(deploy_tx(&adm, "huge", 850_000 + self.salt, &o, 1_000_000, 4)));
        }
        let rz = self.w.s.back[&b].rz.clone();
        let out: Vec<Addr> = self.w.pools().into_iter().filter(|p| *p != A::rogue() && !rz.contains(p)).collect();
        let p = match if out.is_empty() { self.pool() } else { Some(*self.r.pick(&out)) } {
            Some(p) => p,
            None => return,
        };
        let more = *self.r.pick(&[1_000_000i128, 5_000_000, 30_000_000, 900_000_000]) * E7;
        let (lp, bl, us) = (self.w.s.comet_supply, self.w.s.bal(&A::blnd(), &c), self.w.s.bal(&A::usdc(), &c));
        if lp <= 0 {
            return;
        }
        let (bl, us) = (bl / (lp / E7) * (more / E7) * 11 / 10, us / (lp / E7) * (more / E7) * 11 / 10);
        for (t, x) in [(A::blnd(), bl), (A::usdc(), us)] {
            let x = x - self.w.s.bal(&t, &wh);
            if x > 0 {
                self.exec(Op::Give { token: t, to: wh, amount: x });
            }
        }
        self.exec(Op::Tx(tx(c, "join_pool", vec![i128v(more), vecv(vec![i128v(bl), i128v(us)]), addr(&wh)], &[wh])));
        let x = self.lp(&wh);
        self.w.st.note("edge_huge_backstop");
        self.exec(Op::Tx(tx(b, "deposit", vec![addr(&wh), addr(&p), i128v(x)], &[wh])));
        self.exec(Op::Tx(tx(b, "update_tkn_val", vec![], &[])));
        let adm = self.w.s.pools[&p].admin;
        self.exec(Op::Tx(tx(p, "update_status", vec![], &[])));
        self.exec(Op::Tx(tx(p, "set_status", vec![u32v(0)], &[adm])));
        let out = self.w.s.back[&b].rz.first().cloned().unwrap_or(p);
        self.exec(Op::Tx(tx(b, "add_reward", vec![addr(&p), addr(&out)], &[])));
        for _ in 0..self.r.range(1, 3) {
            self.time(800, 4000);
            self.exec(Op::Tx(tx(A::emitter(), "distribute", vec![], &[])));
            self.exec(Op::Tx(tx(b, "gulp_emissions", vec![], &[])));
            for q in self.w.pools() {
                if self.r.pm(400) {
                    self.exec(Op::Tx(tx(q, "gulp_emissions", vec![], &[])));
                }
            }
        }
        self.other();
        if self.r.pm(700) {
            let sh = self.w.s.back[&b].ubal.get(&(p, wh)).map(|z| z.shares).unwrap_or(0);
            self.exec(Op::Tx(tx(b, "queue_withdrawal", vec![addr(&wh), addr(&p), i128v(sh)], &[wh])));
            self.exec(Op::Tx(tx(p, "update_status", vec![], &[])));
            if self.r.pm(600) {
                self.time(21 * 17280, 21 * 86400);
                self.exec(Op::Tx(tx(b, "withdraw", vec![addr(&wh), addr(&p), i128v(sh)], &[wh])));
                self.exec(Op::Tx(tx(p, "update_status", vec![], &[])));
            }
        }
    }
    /// a pool of its own with one reserve more than a pool may have
    fn many_reserves(&mut self) {
        if self.w.s.pools.len() > 14 || self.w.s.pools.values().any(|x| x.res_list.len() > 8) {
            return;
        }
        let adm = self.user();
        let o = self.w.p.oracles[0];
        self.salt += 1;
        let t = deploy_tx(&adm, "many", 900_000 + self.salt, &o, 1_000_000, 4);
        let before = self.w.pools();
        if !self.exec(Op::Tx(t)) {
            return;
        }
        let p = match self.w.pools().into_iter().find(|p| !before.contains(p)) {
            Some(p) => p,
            None => return,
        };
        self.w.st.note("edge_many_reserves");
        for i in 0..34 {
            let a = Addr::tag(&format!("many{i}"));
            let c = any_cfg(&mut self.r, 7);
            self.exec(Op::Tx(tx(p, "queue_set_reserve", vec![addr(&a), rescfg_sc(&c)], &[adm])));
            self.exec(Op::Tx(tx(p, "set_reserve", vec![addr(&a)], &[])));
        }
        let i = self.r.range(0, 33) as u32;
        let m = structv(vec![("res_index", u32v(i)), ("res_type", u32v(self.r.below(3) as u32)), ("share", u64v(5_000_000))]);
        self.exec(Op::Tx(tx(p, "set_emissions_config", vec![vecv(vec![m])], &[adm])));
        // one of them changed once more
        let a = Addr::tag(&format!("many{}", self.r.below(34)));
        let c = any_cfg(&mut self.r, 7);
        self.exec(Op::Tx(tx(p, "queue_set_reserve", vec![addr(&a), rescfg_sc(&c)], &[adm])));
        self.exec(Op::Tx(tx(p, "set_reserve", vec![addr(&a)], &[])));
    }
    /// a backstop that meets the deposit threshold exactly, not by rounding up past it
    fn exact_threshold(&mut self) {
        let (c, b) = (A::comet(), A::backstop());
        let (bl, us) = (self.w.s.bal(&A::blnd(), &c), self.w.s.bal(&A::usdc(), &c));
        if bl <= 0 || us <= 0 || !self.w.s.back.contains_key(&b) {
            return;
        }
        // whole amounts of BLND and USDC whose product constant is the threshold to the last digit
        let pc = 320_000_000_000_000_000_000_000_000i128;
        let mut best: Option<(i128, Addr, i128)> = None;
        for x in 250_000i128..800_000 {
            let q = x * x * x * x;
            let y = (pc + q - 1) / q;
            if q * y * 10 / (pc / 1_000_000) != 10_000_000 {
                continue;
            }
            let (tk, need, have) = if x * us > bl * y { (A::blnd(), us * x / y - bl, bl) } else { (A::usdc(), bl * y / x - us, us) };
            let part = need * 100_000 / have;
            if best.map(|z| part < z.0).unwrap_or(true) {
                best = Some((part, tk, need));
            }
        }
        let (part, tk, need) = match best {
            Some(z) => z,
            None => return,
        };
        let payer = A::whale();
        if part > 20_000 || need <= 0 || self.w.s.bal(&tk, &payer) < need {
            return;
        }
        self.exec(Op::Tx(tx(c, "dep_tokn_amt_in_get_lp_tokns_out", vec![addr(&tk), i128v(need), i128v(0), addr(&payer)], &[payer])));
        self.exec(Op::Tx(tx(b, "update_tkn_val", vec![], &[])));
        let k = match self.w.s.back[&b].lp_val {
            Some(v) => v,
            None => return,
        };
        let level = |t: i128| {
            let pd = crate::model::PoolData { tokens: t, q4w_pct: 0, blnd: t * k.0 / E7, usdc: t * k.1 / E7 };
            crate::model::M::threshold(&pd)
        };
        let (mut lo, mut hi) = (0i128, 500_000 * E7);
        if level(hi) < E7 {
            return;
        }
        while hi - lo > 1 {
            let m = (lo + hi) / 2;
            if level(m) >= E7 {
                hi = m;
            } else {
                lo = m;
            }
        }
        if level(hi) == E7 {
            self.w.st.note("edge_exact_threshold");
        }
        let rz = self.w.s.back[&b].rz.clone();
        let tokens = |g: &Gen, p: &Addr| g.w.s.back[&b].pbal.get(p).map(|x| x.tokens).unwrap_or(0);
        let mut ps: Vec<Addr> = self.w.pools().into_iter().filter(|p| *p != A::rogue() && tokens(self, p) < hi).collect();
        if ps.is_empty() || self.r.pm(300) {
            let adm = self.user();
            let o = self.w.p.oracles[0];
            self.salt += 1;
            let before = self.w.pools();
            self.exec(Op::Tx(deploy_tx(&adm, "edge", 800_000 + self.salt, &o, 1_000_000, 4)));
            ps = self.w.pools().into_iter().filter(|p| !before.contains(p)).collect();
        }
        if ps.is_empty() {
            return;
        }
        let p = *self.r.pick(&ps);
        let adm = self.w.s.pools[&p].admin;
        let rich: Vec<Addr> = self.w.p.users.iter().cloned().chain([A::whale()]).filter(|u| self.lp(u) >= hi).collect();
        if rich.is_empty() {
            return;
        }
        let u = *self.r.pick(&rich);
        let first = *self.r.pick(&[0i128, 1]);
        let x = hi - first - tokens(self, &p);
        if x > 0 {
            self.exec(Op::Tx(tx(b, "deposit", vec![addr(&u), addr(&p), i128v(x)], &[u])));
        }
        for _ in 0..2 {
            if self.r.pm(600) {
                let to = *self.r.pick(&[0u32, 3]);
                self.send(tx(p, "set_status", vec![u32v(to)], &[adm]));
            }
            self.send(tx(p, "update_status", vec![], &[]));
            self.send(tx(p, "set_status", vec![u32v(0)], &[adm]));
            if !rz.contains(&p) {
                self.send(tx(b, "add_reward", vec![addr(&p), addr(&p)], &[]));
            }
            if first == 0 {
                break;
            }
            self.exec(Op::Tx(tx(b, "deposit", vec![addr(&u), addr(&p), i128v(1)], &[u])));
        }
    }
    /// an account whose debts and collateral are a handful of units, liquidated in slices
    fn dust(&mut self) {
        let p = match self.pool() {
            Some(p) => p,
            None => return,
        };
        let st = &self.w.s.pools[&p];
        if st.res_list.len() < 2 || st.status > 1 {
            return;
        }
        let list = st.res_list.clone();
        let col: Vec<Addr> = list.iter().filter(|a| st.cfg[*a].c_factor > 0).cloned().collect();
        if col.is_empty() {
            return;
        }
        let us: Vec<Addr> = self.w.p.users.iter().filter(|u| !st.pos.contains_key(u)).cloned().collect();
        let u = if us.is_empty() { self.user() } else { *self.r.pick(&us) };
        let lender = self.user();
        let c = *self.r.pick(&col);
        // cheap per unit against expensive per unit makes the units on one side few
        let ds: Vec<Addr> = list.iter().filter(|a| **a != c).cloned().collect();
        let d = *self.r.pick(&ds);
        if self.w.s.bal(&d, &p) < 1000 {
            let x = self.worth(&d, 1_000_000);
            self.exec(Op::Tx(submit(p, &lender, vec![(0, d, x)])));
        }
        let n = self.r.range(1, 12);
        let mut q = self.r.range(2, 200);
        for _ in 0..24 {
            let t = submit(p, &u, vec![(2, c, q), (4, d, n)]);
            if self.accept(&t) {
                self.exec(Op::Tx(t));
                if self.r.pm(400) {
                    let d2 = *self.r.pick(&list);
                    let k = self.r.range(1, 3);
                    self.exec(Op::Tx(submit(p, &u, vec![(4, d2, k)])));
                }
                break;
            }
            q *= 4;
        }
        if self.w.s.pools[&p].pos.get(&u).map(|x| x.liab.is_empty()).unwrap_or(true) {
            return;
        }
        let t = if self.r.pm(300) { self.r.range(5, 500) } else { self.r.range(850, 1000) };
        self.squeeze(&p, &u, t);
        let made = (0..6).any(|_| self.new_liq(&p, &u));
        if made {
            self.w.st.note("edge_dust");
            for _ in 0..3 {
                if self.r.pm(600) {
                    self.wait_blocks();
                }
                if !self.fill(&p, 0, &u) && self.r.pm(500) {
                    // a small slice, with plenty of collateral behind it
                    let f = self.user();
                    let pct = self.r.range(1, 60);
                    let x = self.worth(&c, 10_000_000).min(self.w.s.bal(&c, &f)).max(1);
                    self.exec(Op::Tx(submit(p, &f, vec![(2, c, x), (6, u, pct)])));
                }
            }
        }
        if self.r.pm(500) {
            self.reset_prices();
        }
    }
    /// every depositor of a pool leaves its backstop, while things of that pool are still going on
    fn empty_backstop(&mut self) {
        let b = A::backstop();
        let rz = self.w.s.back.get(&b).map(|x| x.rz.clone()).unwrap_or_default();
        let ps: Vec<Addr> = self.w.s.back.get(&b).map(|x| x.pbal.iter().filter(|(_, v)| v.shares > 0).map(|x| *x.0).collect()).unwrap_or_default();
        if ps.is_empty() {
            return;
        }
        let mut p = *self.r.pick(&ps);
        for _ in 0..3 {
            if !rz.contains(&p) || !self.w.s.pools.contains_key(&p) {
                p = *self.r.pick(&ps);
            }
        }
        let pb = self.w.s.pools.get(&p).map(|x| x.backstop == b).unwrap_or(false);
        if pb && self.r.pm(600) {
            // something for an interest auction to sell
            let borrowed = self.w.s.pools[&p].data.values().any(|d| d.d_supply > 0);
            if !borrowed && !self.w.s.pools[&p].res_list.is_empty() {
                self.position(&p);
            }
        }
        let holders: Vec<(Addr, i128)> = self.w.s.back[&b].ubal.iter().filter(|(k, v)| k.0 == p && v.total() > 0).map(|(k, v)| (k.1, v.shares)).collect();
        let keep = self.r.pm(250);
        for (i, (u, sh)) in holders.iter().enumerate() {
            let x = if keep && i == 0 { *sh - 1 } else { *sh };
            if x > 0 {
                self.exec(Op::Tx(tx(b, "queue_withdrawal", vec![addr(u), addr(&p), i128v(x)], &[*u])));
            }
        }
        if self.r.pm(400) {
            // distribution and accrual while nobody earns
            self.time(1000, 5000);
            self.exec(Op::Tx(tx(A::emitter(), "distribute", vec![], &[])));
            self.exec(Op::Tx(tx(b, "gulp_emissions", vec![], &[])));
            self.claim();
        }
        if self.r.pm(250) {
            // someone comes back before the wait is over
            if let Some((u, sh)) = holders.first() {
                let x = self.r.range(1, (*sh).max(1));
                self.exec(Op::Tx(tx(b, "dequeue_withdrawal", vec![addr(u), addr(&p), i128v(x)], &[*u])));
            }
        }
        self.time(21 * 17280, 21 * 86_400);
        let mut opened = false;
        if pb && self.r.pm(800) {
            let l = self.w.s.pools[&p].res_list.clone();
            opened = self.exec(Op::Tx(tx(p, "new_interest_auction", vec![vecv(l.iter().map(addr).collect())], &[])));
        }
        for (u, _) in holders.iter() {
            let ub = self.w.s.back[&b].ubal.get(&(p, *u)).cloned().unwrap_or_default();
            let now = self.w.led.ts;
            let x: i128 = ub.q4w.iter().filter(|e| e.1 <= now).map(|e| e.0).sum();
            if x > 0 {
                self.exec(Op::Tx(tx(b, "withdraw", vec![addr(u), addr(&p), i128v(x)], &[*u])));
            }
        }
        if self.w.s.back[&b].pbal.get(&p).map(|x| x.shares == 0).unwrap_or(true) {
            self.w.st.note("edge_no_shares");
        }
        self.other();
        if opened {
            self.wait_blocks();
            for _ in 0..3 {
                if self.fill(&p, 2, &b) {
                    break;
                }
            }
        }
        if self.r.pm(700) {
            self.time(800, 4000);
            self.exec(Op::Tx(tx(A::emitter(), "distribute", vec![], &[])));
            self.exec(Op::Tx(tx(b, "gulp_emissions", vec![], &[])));
        }
        if self.r.pm(300) {
            self.exec(Op::Tx(tx(p, "update_status", vec![], &[])));
        }
        // newcomers
        if self.r.pm(800) {
            let u = self.user();
            let x = match self.r.below(4) {
                0 => self.r.range(1, 5),
                1 => self.r.log(E7),
                _ => self.r.range(1, 60_000) * E7,
            };
            self.send(tx(b, "deposit", vec![addr(&u), addr(&p), i128v(x)], &[u]));
            if self.r.pm(500) {
                let v = self.user();
                let y = self.r.log(1000 * E7);
                self.send(tx(b, "deposit", vec![addr(&v), addr(&p), i128v(y)], &[v]));
            }
            self.time(300, 4000);
            self.claim();
        }
    }
    /// the reward zone's rules, with times and sizes around their limits
    fn full_zone(&mut self) {
        let b = A::backstop();
        if !self.w.s.back.contains_key(&b) {
            return;
        }
        if self.r.pm(600) {
            self.fill_zone();
        }
        let (rz, last) = (self.w.s.back[&b].rz.clone(), self.w.s.back[&b].last_dist);
        let all = self.w.pools();
        let out: Vec<Addr> = all.iter().filter(|p| !rz.contains(p)).cloned().collect();
        if out.is_empty() || rz.is_empty() {
            return;
        }
        let add = *self.r.pick(&out);
        let rem = *self.r.pick(&rz);
        let tk = |g: &Gen, p: &Addr| g.w.s.back[&b].pbal.get(p).map(|y| y.tokens).unwrap_or(0);
        let how = self.r.below(8);
        match how {
            0 | 1 => {
                // the leaving pool is larger, but most of what it holds is on its way out: that still counts
                let pb = self.w.s.back[&b].pbal.get(&add).cloned().unwrap_or_default();
                let x = self.threshold_gap(&pb) + self.r.range(0, 10);
                self.put(&add, x);
                let over = if self.r.pm(300) { 0 } else { self.r.log(5000 * E7) };
                let x = tk(self, &add) + over - tk(self, &rem);
                self.put(&rem, x);
                let hs: Vec<(Addr, i128)> = self.w.s.back[&b].ubal.iter().filter(|(k, v)| k.0 == rem && v.shares > 0).map(|(k, v)| (k.1, v.shares)).collect();
                for (u, sh) in hs {
                    let n = if self.r.pm(500) { sh } else { self.r.range(1, sh) };
                    self.exec(Op::Tx(tx(b, "queue_withdrawal", vec![addr(&u), addr(&rem), i128v(n)], &[u])));
                }
            }
            2 => {
                // the leaving pool has nothing left at all
                let hs: Vec<(Addr, i128)> = self.w.s.back[&b].ubal.iter().filter(|(k, v)| k.0 == rem && v.total() > 0).map(|(k, v)| (k.1, v.shares)).collect();
                for (u, sh) in hs.iter() {
                    if *sh > 0 {
                        self.exec(Op::Tx(tx(b, "queue_withdrawal", vec![addr(u), addr(&rem), i128v(*sh)], &[*u])));
                    }
                }
                self.time(21 * 17280, 21 * 86_400);
                for (u, _) in hs.iter() {
                    let x = self.w.s.back[&b].ubal.get(&(rem, *u)).map(|y| y.total()).unwrap_or(0);
                    if x > 0 {
                        self.exec(Op::Tx(tx(b, "withdraw", vec![addr(u), addr(&rem), i128v(x)], &[*u])));
                    }
                }
                let pb = self.w.s.back[&b].pbal.get(&add).cloned().unwrap_or_default();
                let x = self.threshold_gap(&pb) + self.r.range(0, 10);
                self.put(&add, x);
                if self.r.pm(700) {
                    self.fill_zone();
                }
            }
            _ => {
                let extra = match self.r.below(4) {
                    0 => self.r.range(-1, 1),
                    1 => 1,
                    _ => self.r.range(2, 500 * E7),
                };
                let x = tk(self, &rem) - tk(self, &add) + extra;
                self.put(&add, x);
            }
        }
        if self.w.led.ts.saturating_sub(last) > 3600 && !(how == 2 && self.r.pm(700)) {
            self.exec(Op::Tx(tx(A::emitter(), "distribute", vec![], &[])));
            self.exec(Op::Tx(tx(b, "gulp_emissions", vec![], &[])));
        }
        let d = *self.r.pick(&[0u64, 0, 3600, 43_200, 86_399, 86_400, 86_401, 90_000, 100_000, 120_000, 172_799, 172_800, 172_801, 600_000]);
        let gone = self.w.led.ts.saturating_sub(self.w.s.back[&b].last_dist);
        if d > gone {
            self.time(((d - gone) / 5) as u32, d - gone);
        }
        if self.r.pm(300) {
            self.exec(Op::Tx(tx(A::emitter(), "distribute", vec![], &[])));
        }
        self.w.st.note("edge_zone");
        if self.zone_room() == 0 {
            self.w.st.note(["edge_zone_queued", "edge_zone_queued", "edge_zone_emptied", "edge_zone_full"][how.min(3) as usize]);
        }
        self.send(tx(b, "add_reward", vec![addr(&add), addr(&rem)], &[]));
        if self.r.pm(300) {
            self.send(tx(b, "add_reward", vec![addr(&add), addr(&add)], &[]));
        }
        self.exec(Op::Tx(tx(A::emitter(), "distribute", vec![], &[])));
        self.exec(Op::Tx(tx(b, "gulp_emissions", vec![], &[])));
    }
    /// somebody who has enough puts it into a pool's backstop
    fn put(&mut self, p: &Addr, x: i128) {
        let mut us: Vec<Addr> = self.w.p.users.iter().filter(|u| self.lp(u) >= x).cloned().collect();
        if us.is_empty() && self.lp(&A::whale()) >= x {
            us.push(A::whale());
        }
        if x > 0 && !us.is_empty() {
            let u = *self.r.pick(&us);
            self.exec(Op::Tx(tx(A::backstop(), "deposit", vec![addr(&u), addr(p), i128v(x)], &[u])));
        }
    }
    fn zone_room(&self) -> u64 {
        let n = self.w.s.back[&A::backstop()].rz.len() as u64;
        let max = if self.w.led.ts < EPOCH { 10 } else { 10 + ((self.w.led.ts - EPOCH) >> 23) };
        max.saturating_sub(n)
    }
    /// pools join the reward zone until it is full; one more stays outside
    fn fill_zone(&mut self) {
        let b = A::backstop();
        for _ in 0..12 {
            let rz = self.w.s.back[&b].rz.clone();
            let out: Vec<Addr> = self.w.pools().into_iter().filter(|p| *p != A::rogue() && !rz.contains(p)).collect();
            let room = self.zone_room();
            if room == 0 && !out.is_empty() {
                return;
            }
            if out.len() < 2 {
                if self.w.s.pools.len() > 18 {
                    return;
                }
                let adm = self.user();
                let o = self.w.p.oracles[0];
                self.salt += 1;
                self.exec(Op::Tx(deploy_tx(&adm, "zone", 800_000 + self.salt, &o, 1_000_000, 4)));
                continue;
            }
            let p = *self.r.pick(&out);
            let pb = self.w.s.back[&b].pbal.get(&p).cloned().unwrap_or_default();
            let x = self.threshold_gap(&pb) + self.r.range(0, 10);
            self.put(&p, x);
            if !self.exec(Op::Tx(tx(b, "add_reward", vec![addr(&p), addr(&p)], &[]))) {
                return;
            }
        }
    }
    /// accounts that are no pools use the entry points meant for pools, with every signature they could need
    fn outsider(&mut self) {
        let b = self.bstop();
        let u = self.user();
        let v = *self.r.pick(&[A::eve(), A::admin(), A::rogue(), A::whale(), u]);
        let x = match self.r.below(5) {
            0 => 0,
            1 => 1,
            _ => self.r.range(1, 2000) * E7,
        };
        let s = [u, v];
        let t = match self.r.below(7) {
            0 | 1 => tx(b, "donate", vec![addr(&u), addr(&v), i128v(x)], &s),
            2 => tx(b, "draw", vec![addr(&v), i128v(x), addr(&u)], &s),
            3 => tx(b, "gulp_pool_emissions", vec![addr(&v)], &s),
            4 => tx(b, "deposit", vec![addr(&u), addr(&v), i128v(x)], &s),
            5 => tx(b, "queue_withdrawal", vec![addr(&u), addr(&v), i128v(x)], &s),
            _ => tx(b, "add_reward", vec![addr(&v), addr(&v)], &s),
        };
        self.send(t);
    }
    /// repayments around the point where the last debt share goes
    fn exact_repay(&mut self) {
        let ps: Vec<(Addr, Addr, u32, i128)> = self
            .w
            .s
            .pools
            .iter()
            .flat_map(|(p, x)| x.pos.iter().flat_map(move |(u, y)| y.liab.iter().map(move |(i, d)| (*p, *u, *i, *d))))
            .filter(|x| self.w.p.users.contains(&x.1))
            .collect();
        if ps.is_empty() {
            if let Some(p) = self.pool() {
                self.position(&p);
            }
            return;
        }
        let (p, u, i, d) = *self.r.pick(&ps);
        let a = self.w.s.pools[&p].res_list[i as usize];
        let r = match self.fresh(&p, &a) {
            Some(r) => r,
            None => return,
        };
        let full = r.from_d(d).unwrap_or(0);
        let k = *self.r.pick(&[-2i128, -1, 0, 0, 0, 1, 2]);
        self.w.st.note("edge_repay");
        let mut q = vec![(5, a, full + k)];
        match self.r.below(4) {
            0 => q.insert(0, (4, a, self.r.range(1, 50))),
            1 => q.push((5, a, 1)),
            _ => {}
        }
        self.exec(Op::Tx(submit(p, &u, q)));
    }
    /// several fillers of one auction in the same ledger
    fn fill_race(&mut self) {
        let l: Vec<(Addr, u32, Addr)> = self.w.s.pools.iter().flat_map(|(p, x)| x.auctions.keys().map(move |k| (*p, k.0, k.1))).collect();
        if l.is_empty() {
            self.liquidate();
            return;
        }
        let (p, k, u) = *self.r.pick(&l);
        if self.r.pm(500) {
            self.wait_blocks();
        }
        for _ in 0..3 {
            self.fill(&p, k, &u);
        }
        if k == 0 && self.r.pm(300) {
            self.exec(Op::Tx(submit(p, &u, vec![(9, u, 0)])));
        }
    }

    fn views(&mut self) {
        let p = match self.pool() {
            Some(p) => p,
            None => return,
        };
        let b = self.bstop();
        let u = self.user();
        let t = match self.r.below(9) {
            0 => tx(p, "get_positions", vec![addr(&u)], &[]),
            1 => {
                let l: Vec<(u32, Addr)> = self.w.s.pools[&p].auctions.keys().cloned().collect();
                let (k, a) = if l.is_empty() { (0, u) } else { *self.r.pick(&l) };
                tx(p, "get_auction", vec![u32v(k), addr(&a)], &[])
            }
            2 => tx(b, "user_balance", vec![addr(&p), addr(&u)], &[]),
            3 => tx(b, "pool_data", vec![addr(&p)], &[]),
            4 => tx(A::emitter(), "get_last_distro", vec![addr(&b)], &[]),
            5 => tx(A::emitter(), "get_backstop", vec![], &[]),
            6 => tx(A::emitter(), "get_queued_swap", vec![], &[]),
            7 => tx(A::factory(), "is_pool", vec![addr(&p)], &[]),
            _ => tx(b, "backstop_token", vec![], &[]),
        };
        self.exec(Op::Tx(t));
    }

    // ------------------------------------------------------------ recovery
    /// Faults stop, clocks and prices are sane again: everything that is due must now succeed.
    pub fn drain(&mut self) {
        self.w.st.note("drain");
        self.restore();
        self.reset_prices();
        self.time(10, 50);
        let must = |mut t: Tx| {
            t.must = true;
            Op::Tx(t)
        };
        let e = A::emitter();
        self.exec(must(tx(e, "distribute", vec![], &[])));
        for b in [A::backstop(), A::bstop2()] {
            if !self.w.s.back.contains_key(&b) {
                continue;
            }
            self.exec(must(tx(b, "update_tkn_val", vec![], &[])));
            let bs = self.w.s.back[&b].clone();
            let last = self.w.s.emit[&e].last.get(&b).cloned().unwrap_or(0);
            let mut active = 0;
            for p in &bs.rz {
                let x = bs.pbal.get(p).cloned().unwrap_or_default();
                active += x.active().unwrap_or(0);
            }
            if last > bs.last_dist + 3600 && !bs.rz.is_empty() && active > 0 {
                self.exec(must(tx(b, "gulp_emissions", vec![], &[])));
            }
        }
        let pools = self.w.pools();
        for p in &pools {
            let x = self.w.s.pools[p].clone();
            if x.status != 4 && x.status != 6 {
                self.exec(must(tx(*p, "update_status", vec![], &[])));
            }
            if self.w.s.back.get(&x.backstop).and_then(|b| b.pool_emis.get(p)).cloned().unwrap_or(0) >= E7 {
                self.exec(must(tx(*p, "gulp_emissions", vec![], &[])));
            }
        }
        // borrowers repay, suppliers leave
        for p in &pools {
            let x = self.w.s.pools[p].clone();
            for (u, ps) in &x.pos {
                if *u == x.backstop || self.w.kind(u) != Kind::None {
                    continue;
                }
                if !ps.liab.is_empty() {
                    let mut reqs = vec![];
                    for (i, d) in &ps.liab {
                        let a = x.res_list[*i as usize];
                        let r = match self.fresh(p, &a) {
                            Some(r) => r,
                            None => continue,
                        };
                        let owe = r.from_d(*d).unwrap_or(0);
                        let extra = self.r.range(1, owe.max(1));
                        self.exec(Op::Give { token: a, to: *u, amount: owe + extra });
                        reqs.push((5, a, owe + extra));
                    }
                    self.exec(must(submit(*p, u, reqs)));
                }
            }
            for (u, _) in &x.pos {
                if *u == x.backstop || self.w.kind(u) != Kind::None {
                    continue;
                }
                let ps = match self.w.s.pools[p].pos.get(u) {
                    Some(ps) => ps.clone(),
                    None => continue,
                };
                if !ps.liab.is_empty() {
                    continue;
                }
                for (ty, m) in [(1u32, &ps.supp), (3u32, &ps.coll)] {
                    for (i, sh) in m {
                        let a = x.res_list[*i as usize];
                        let r = match self.fresh(p, &a) {
                            Some(r) => r,
                            None => continue,
                        };
                        let mine = r.from_b(*sh).unwrap_or(0);
                        let cash = self.w.s.bal(&a, p);
                        if mine.min(cash) > 0 {
                            let want = if cash > mine { mine + 1000 } else { cash };
                            self.exec(must(submit(*p, u, vec![(ty, a, want)])));
                        }
                    }
                }
            }
            // emissions
            let x = self.w.s.pools[p].clone();
            let allow = self.w.s.allow.get(&(x.blnd, x.backstop, *p)).cloned();
            let live = allow.map(|a| a.1 >= self.w.led.seq).unwrap_or(false);
            for u in self.w.p.users.clone() {
                if !live {
                    break;
                }
                let ids: Vec<ScVal> = (0..2 * x.res_list.len() as u32).map(u32v).collect();
                let t = tx(*p, "claim", vec![addr(&u), vecv(ids), addr(&u)], &[u]);
                if self.w.lapsed.contains(p) && !self.accept(&t) {
                    // recorded defect, counted where the claim is judged
                    self.exec(Op::Tx(t));
                } else {
                    self.exec(must(t));
                }
            }
        }
        // auctions owed to the backstop
        for p in &pools {
            let x = self.w.s.pools[p].clone();
            let b = x.backstop;
            let tokens = self.w.s.back.get(&b).and_then(|k| k.pbal.get(p)).map(|y| y.tokens).unwrap_or(0);
            if tokens < E7 || x.res_list.is_empty() {
                continue;
            }
            let listed = x.res_list.iter().all(|a| self.w.env.borrow().oracles.get(&x.oracle).map(|o| o.prices.contains_key(a)).unwrap_or(false));
            if !listed {
                continue;
            }
            if !x.auctions.contains_key(&(2, b)) {
                let l = x.res_list.clone();
                let t = tx(*p, "new_interest_auction", vec![vecv(l.iter().map(addr).collect())], &[]);
                let dec = self.w.env.borrow().oracles[&x.oracle].decimals;
                let mut val = 0i128;
                for a in &l {
                    let pr = self.w.env.borrow().oracles[&x.oracle].prices[a].price;
                    val += pr * (x.data[a].credit / 1000) / 10i128.pow(x.cfg[a].decimals) * 1000;
                }
                if val > 210 * 10i128.pow(dec) {
                    self.exec(must(t));
                }
            }
            if self.w.s.pools[p].auctions.contains_key(&(2, b)) {
                self.time(402, 402 * 5);
                let f = self.user();
                // the lot must be there: suppliers may have left with the cash
                // (and the auction: its entry may have run out of time to live while waiting)
                let lot = self.w.s.pools[p].auctions.get(&(2, b)).map(|a| a.lot.clone()).unwrap_or_default();
                if !lot.is_empty() && lot.iter().all(|(a, x)| self.w.s.bal(a, p) >= *x) {
                    self.exec(must(submit(*p, &f, vec![(8, b, 100)])));
                }
            }
            let owes = x.pos.get(&b).map(|y| y.liab.clone()).unwrap_or_default();
            if !owes.is_empty() && !self.w.s.pools[p].auctions.contains_key(&(1, b)) {
                let mut val = 0i128;
                for (i, d) in &owes {
                    let a = x.res_list[*i as usize];
                    let pr = self.w.env.borrow().oracles[&x.oracle].prices[&a].price;
                    val += pr.saturating_mul(*d / 1000) / 10i128.pow(x.cfg[&a].decimals);
                }
                if val > 1 {
                    self.exec(must(tx(*p, "new_bad_debt_auction", vec![], &[])));
                }
            }
        }
        // depositors leave
        let ks: Vec<(Addr, Addr, Addr)> = self.w.s.back.iter().flat_map(|(b, x)| x.ubal.keys().map(move |k| (*b, k.0, k.1))).collect();
        for (b, p, u) in &ks {
            if self.w.kind(u) != Kind::None {
                continue;
            }
            let ub = self.w.s.back[b].ubal[&(*p, *u)].clone();
            if ub.shares > 0 && ub.q4w.len() < 21 {
                self.exec(must(tx(*b, "queue_withdrawal", vec![addr(u), addr(p), i128v(ub.shares)], &[*u])));
            }
        }
        // with every share queued the periodic updates still run
        self.time(17280, 86_400);
        self.exec(must(tx(e, "distribute", vec![], &[])));
        for (b, p, u) in &ks {
            if self.w.kind(u) != Kind::None {
                continue;
            }
            let has = self.w.s.back[b].uemis.get(&(*p, *u)).is_some();
            let t = tx(*b, "claim", vec![addr(u), vecv(vec![addr(p)]), addr(u)], &[*u]);
            let refuses = self.w.predict(&t, |m| {
                let _ = m.apply(&t);
                m.notes.contains(&"comet_refuses")
            });
            if has && !refuses {
                let tokens = self.w.s.back[b].pbal.get(p).map(|y| y.tokens).unwrap_or(0);
                if tokens > 0 {
                    self.exec(must(t));
                }
            }
        }
        self.time(21 * 17280, 21 * 86_400);
        for (b, p, u) in &ks {
            if self.w.kind(u) != Kind::None {
                continue;
            }
            let ub = match self.w.s.back[b].ubal.get(&(*p, *u)) {
                Some(x) => x.clone(),
                None => continue,
            };
            let q: i128 = ub.q4w.iter().map(|x| x.0).sum();
            let pb = self.w.s.back[b].pbal.get(p).cloned().unwrap_or_default();
            if q > 0 && pb.to_tokens(q).unwrap_or(0) > 0 {
                self.exec(must(tx(*b, "withdraw", vec![addr(u), addr(p), i128v(q)], &[*u])));
            }
        }
    }
}

const WEEK: u64 = 604_800;
