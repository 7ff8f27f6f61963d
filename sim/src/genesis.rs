//! World construction. Everything after installing code goes through the same checked step function.

use crate::natives::*;
use crate::ops::*;
use crate::prng::Rng;
use crate::state::*;
use crate::sv::*;
use crate::world::*;
use soroban_env_host::xdr::ScVal;

pub const E7: i128 = 10_000_000;
pub const EPOCH: u64 = 1713139200;
pub const DAYS: u64 = 86_400;

pub fn tx(to: Addr, func: &str, args: Vec<ScVal>, signers: &[Addr]) -> Tx {
    Tx { to, func: func.into(), args, signers: signers.to_vec(), fault: Fault::None, must: false }
}
pub fn req(ty: u32, a: &Addr, amt: i128) -> ScVal {
    structv(vec![("request_type", u32v(ty)), ("address", addr(a)), ("amount", i128v(amt))])
}
pub fn submit(p: Addr, from: &Addr, reqs: Vec<(u32, Addr, i128)>) -> Tx {
    submit3(p, from, from, from, reqs, &[*from])
}
pub fn submit3(p: Addr, from: &Addr, spender: &Addr, to: &Addr, reqs: Vec<(u32, Addr, i128)>, signers: &[Addr]) -> Tx {
    tx(
        p,
        "submit",
        vec![addr(from), addr(spender), addr(to), vecv(reqs.iter().map(|(t, a, x)| req(*t, a, *x)).collect())],
        signers,
    )
}
pub fn user(n: usize) -> Addr {
    Addr::tag(["alice", "bob", "carol", "dave", "erin", "frank", "gina", "hugo"][n % 8])
}

pub fn rand_cfg(r: &mut Rng, dec: u32) -> ResCfg {
    let util = r.range(30, 95) as u32 * 100_000;
    let max_util = if r.pm(300) { 10_000_000 } else { (util + r.range(1, 40) as u32 * 100_000).min(10_000_000) };
    let r_one = r.range(0, 20) as u32 * 50_000;
    let r_two = r_one + r.range(0, 40) as u32 * 100_000;
    let r_three = r_two + r.range(0, 40) as u32 * 500_000;
    ResCfg {
        index: 0,
        decimals: dec,
        c_factor: if r.pm(60) { 0 } else { r.range(30, 98) as u32 * 100_000 },
        l_factor: if r.pm(200) { 10_000_000 } else { r.range(50, 100) as u32 * 100_000 },
        util,
        max_util,
        r_base: *r.pick(&[1000, 10_000, 100_000, 500_000]),
        r_one,
        r_two,
        r_three,
        reactivity: *r.pick(&[0, 10, 50, 200, 1000]),
    }
}

pub fn any_cfg(r: &mut Rng, dec: u32) -> ResCfg {
    let mut c = rand_cfg(r, dec);
    if r.pm(300) {
        extreme(r, &mut c);
    }
    c
}
/// push some of the parameters to the ends of what is allowed
pub fn extreme(r: &mut Rng, c: &mut ResCfg) {
    if r.pm(150) {
        c.c_factor = *r.pick(&[10_000_000u32, 9_999_999, 1, 100_000]);
    }
    if r.pm(150) {
        c.l_factor = *r.pick(&[10_000_000u32, 9_999_999, 1_000_000, 100_000]);
    }
    if r.pm(150) {
        c.util = *r.pick(&[1u32, 10, 1_000_000, 9_499_999, 9_500_000]);
        c.max_util = c.max_util.max(c.util + 1);
    }
    if r.pm(150) {
        c.max_util = *r.pick(&[c.util + 1, 9_500_000.max(c.util + 1), 9_999_999, 10_000_000]);
    }
    if r.pm(100) {
        c.r_base = *r.pick(&[1000u32, 1001, 9_999_999]);
    }
    if r.pm(100) {
        c.r_one = 0;
    }
    if r.pm(80) {
        c.r_three = c.r_two + *r.pick(&[0u32, 1, 100_000_000]);
    }
    if r.pm(60) {
        // rates so steep that their sum leaves 32 bits
        c.r_three = *r.pick(&[u32::MAX, u32::MAX - 1, 2_500_000_000]);
        c.r_two = *r.pick(&[c.r_three, c.r_two, 2_500_000_000, 1_000_000_000]).min(&c.r_three);
        c.r_one = *r.pick(&[c.r_two, c.r_one, c.r_two / 2 + 1]);
    }
    if r.pm(80) {
        c.reactivity = *r.pick(&[0u32, 1, 999, 1000]);
    }
}

pub fn deploy_tx(admin: &Addr, name: &str, salt: u64, oracle: &Addr, rate: u32, maxp: u32) -> Tx {
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&salt.to_be_bytes());
    tx(
        A::factory(),
        "deploy",
        vec![addr(admin), strv(name), bytesv(&s), addr(oracle), u32v(rate), u32v(maxp)],
        &[*admin],
    )
}

pub fn price_of(a: &Asset, dec: u32) -> i128 {
    a.cents * 10i128.pow(dec) / 100
}

pub fn params(variant: u64) -> (Params, Rng) {
    let mut r = Rng::new(variant.wrapping_mul(0x9E37_79B9).wrapping_add(77));
    let mut assets = vec![];
    let wide = shape(variant) == 4;
    if wide {
        let fine = r.pm(500);
        // sometimes as many reserves as a pool may have
        let n = if r.pm(300) { 30 } else { 6u32 };
        for i in 0..n {
            let dec = *r.pick(if fine { &[6u32, 7, 9, 12, 18] } else { &[0u32, 2, 6, 7, 7] });
            let cents = if dec == 18 { *r.pick(&[50i128, 100, 400]) } else { *r.pick(&[10i128, 100, 500, 30_000, 250_000]) };
            assets.push(Asset { id: Addr::tag(&format!("tk{i}d{dec}")), dec, cents });
        }
    }
    for i in 0..if wide { 0 } else { 3u32 } {
        let dec = *r.pick(&[6u32, 7, 9, 18]);
        let cents = if dec == 18 { *r.pick(&[50i128, 100, 400]) } else { *r.pick(&[10i128, 100, 500, 30_000, 250_000]) };
        assets.push(Asset { id: Addr::tag(&format!("tk{i}d{dec}")), dec, cents });
    }
    assets.push(Asset { id: A::usdc(), dec: 7, cents: 100 });
    assets.push(Asset { id: A::blnd(), dec: 7, cents: 10 });
    let oracles = vec![Addr::tag("oracle0"), Addr::tag("oracle1")];
    let users = (0..6).map(user).collect();
    (Params { variant, assets, oracles, users }, r)
}

/// 0: two pools, healthy; 1: one rich pool; 2: many small pools (reward zone full); 3: pool whose backstop is nearly empty
/// 4: one pool with many reserves, many positions allowed, unusual decimals
pub fn shape(variant: u64) -> u64 {
    if (24..32).contains(&variant) || (variant > 31 && variant % 16 == 7) {
        return 4;
    }
    [0, 1, 2, 3, 0, 1, 3, 0][(variant % 8) as usize]
}

pub fn genesis(wasm: &Wasm, variant: u64) -> World {
    let (p, mut r) = params(variant);
    let shape = shape(variant);
    let ts0 = EPOCH - 60 * DAYS + r.below(300) * DAYS + r.below(86400);
    let seq0 = 500_000 + r.below(100_000) as u32;
    let mut w = World::empty(wasm, p, seq0, ts0);
    let p = w.p.clone();
    let whale = A::whale();
    let admin = A::admin();
    let big_dec = p.assets.iter().all(|a| a.dec < 18);
    for (i, o) in p.oracles.iter().enumerate() {
        let mut dec = if i == 1 && big_dec { 14 } else { 7 };
        if shape == 4 {
            let small = p.assets.iter().all(|a| a.dec < 8);
            dec = *r.pick(if small { &[7u32, 8, 14, 16, 18] } else { &[5u32, 7, 8] });
        }
        w.env.borrow_mut().oracles.get_mut(o).unwrap().decimals = dec;
        for a in &p.assets {
            w.step(&Op::Price { oracle: *o, asset: a.id, price: price_of(a, dec), feed: PFeed::Auto });
        }
    }
    let give = |w: &mut World, t: Addr, to: Addr, x: i128| {
        w.step(&Op::Give { token: t, to, amount: x });
    };
    give(&mut w, A::blnd(), admin, 1000 * E7);
    give(&mut w, A::usdc(), admin, 25 * E7);
    let go = |w: &mut World, t: Tx| w.step(&Op::Tx(t));
    let (blnd, usdc, comet, back, emit, fact) =
        (A::blnd(), A::usdc(), A::comet(), A::backstop(), A::emitter(), A::factory());
    go(
        &mut w,
        tx(
            comet,
            "init",
            vec![
                addr(&admin),
                vecv(vec![addr(&blnd), addr(&usdc)]),
                vecv(vec![i128v(8_000_000), i128v(2_000_000)]),
                vecv(vec![i128v(1000 * E7), i128v(25 * E7)]),
                i128v(30_000),
            ],
            &[admin],
        ),
    );
    give(&mut w, blnd, whale, 120_000_000 * E7);
    give(&mut w, usdc, whale, 3_000_000 * E7);
    go(
        &mut w,
        tx(
            comet,
            "join_pool",
            vec![i128v(10_000_000 * E7), vecv(vec![i128v(110_000_000 * E7), i128v(2_600_000 * E7)]), addr(&whale)],
            &[whale],
        ),
    );
    for u in &p.users {
        go(&mut w, tx(comet, "transfer", vec![addr(&whale), addr(u), i128v(if shape == 2 { 400_000 } else { 150_000 } * E7)], &[whale]));
        for a in &p.assets {
            // about one million dollars of each
            let units = 100_000_000 / a.cents;
            give(&mut w, a.id, *u, units * 10i128.pow(a.dec));
        }
    }
    go(&mut w, tx(emit, "initialize", vec![addr(&blnd), addr(&back), addr(&comet)], &[]));
    let mut drops = vec![];
    let n = r.below(4);
    let edge = r.pm(150);
    for i in 0..n {
        // 50 million exactly is allowed, a unit more is not
        let amt = match (edge, i) {
            (true, 0) => 50_000_000 * E7 + *r.pick(&[0i128, 0, 1, 5_000_000]),
            (true, _) => 0,
            _ if r.pm(200) => 50_000_000 * E7 / n as i128,
            _ => r.range(1, 1_000_000) * E7,
        };
        drops.push(vecv(vec![addr(&user(i as usize)), i128v(amt)]));
    }
    go(
        &mut w,
        tx(
            back,
            "initialize",
            vec![addr(&comet), addr(&emit), addr(&usdc), addr(&blnd), addr(&fact), vecv(drops)],
            &[],
        ),
    );
    go(
        &mut w,
        tx(
            fact,
            "initialize",
            vec![structv(vec![("backstop", addr(&back)), ("pool_hash", bytesv(&H_POOL)), ("blnd_id", addr(&blnd))])],
            &[],
        ),
    );
    if r.pm(500) {
        go(&mut w, tx(back, "drop", vec![], &[]));
    }
    go(&mut w, tx(back, "update_tkn_val", vec![], &[]));

    let npools = match shape {
        0 => 2,
        2 => 12,
        _ => 1,
    };
    for i in 0..npools {
        let adm = Addr::tag(&format!("padmin{i}"));
        let oracle = p.oracles[(i + variant as usize) % 2];
        let rate = *r.pick(&[0u32, 500_000, 1_000_000, 2_000_000, 5_000_000]);
        let maxp = if shape == 4 { *r.pick(&[5u32, 6, 8, 10, 16, 60]) } else { *r.pick(&[2u32, 3, 4, 6, 8]) };
        let o = go(&mut w, deploy_tx(&adm, &format!("pool{i}"), i as u64, &oracle, rate, maxp));
        let pool = match o.ret.as_ref().and_then(as_addr) {
            Some(a) => a,
            None => continue,
        };
        let nres = match shape {
            2 => 2,
            4 => p.assets.len() - r.idx(3),
            _ => 2 + r.idx(3),
        };
        let mut order: Vec<usize> = (0..p.assets.len()).collect();
        for j in (1..order.len()).rev() {
            let k = r.idx(j + 1);
            order.swap(j, k);
        }
        for j in 0..nres {
            let a = &p.assets[order[j]];
            let mut c = rand_cfg(&mut r, a.dec);
            if shape == 4 {
                extreme(&mut r, &mut c);
            }
            if j == 0 && c.c_factor == 0 {
                c.c_factor = 8_000_000;
            }
            go(&mut w, tx(pool, "queue_set_reserve", vec![addr(&a.id), rescfg_sc(&c)], &[adm]));
            go(&mut w, tx(pool, "set_reserve", vec![addr(&a.id)], &[]));
        }
        if shape == 2 || r.pm(850) {
            let mut m = vec![];
            let mut left = 10_000_000i128;
            let mut ids: Vec<u32> = (0..2 * nres as u32).collect();
            if nres > 10 {
                for j in (1..ids.len()).rev() {
                    ids.swap(j, r.idx(j + 1));
                }
            }
            for id in ids {
                if r.pm(700) {
                    let s = if nres > 10 {
                        left / 6
                    } else if r.pm(300) {
                        left
                    } else {
                        r.range(0, left)
                    };
                    left -= s;
                    if s > 0 || r.pm(300) {
                        m.push(structv(vec![("res_index", u32v(id / 2)), ("res_type", u32v(id % 2)), ("share", u64v(s as u64))]));
                    }
                }
            }
            go(&mut w, tx(pool, "set_emissions_config", vec![vecv(m)], &[adm]));
        }
        // backstop deposits
        let n = 1 + r.idx(3);
        for k in 0..n {
            let u = user(i + k);
            let x = (50_000 + r.range(0, 3000)) * E7 / n as i128;
            go(&mut w, tx(back, "deposit", vec![addr(&u), addr(&pool), i128v(x)], &[u]));
        }
        go(&mut w, tx(pool, "set_status", vec![u32v(if r.pm(500) { 0 } else { 3 })], &[adm]));
        go(&mut w, tx(pool, "update_status", vec![], &[]));
        if i < 11 {
            go(&mut w, tx(back, "add_reward", vec![addr(&pool), addr(&pool)], &[]));
        }
        if shape == 3 {
            // borrow, then let the depositors leave
            for k in 0..3usize {
                let u = user(k);
                let c = w.s.pools[&pool].res_list.clone();
                let a0 = p.assets.iter().find(|a| a.id == c[k % c.len()]).unwrap().clone();
                let a1 = p.assets.iter().find(|a| a.id == c[(k + 1) % c.len()]).unwrap().clone();
                let u0 = 10i128.pow(a0.dec) * 5_000_000 / a0.cents;
                let u1 = 10i128.pow(a1.dec) * 800_000 / a1.cents;
                let supplier = user(k + 3);
                go(&mut w, submit(pool, &supplier, vec![(0, a1.id, u1 * 4)]));
                go(&mut w, submit(pool, &u, vec![(2, a0.id, u0)]));
                go(&mut w, submit(pool, &u, vec![(4, a1.id, u1)]));
            }
            for k in 0..n {
                let u = user(i + k);
                let sh = w.s.back[&back].ubal.get(&(pool, u)).map(|b| b.shares).unwrap_or(0);
                let x = sh - r.range(100, 1500) * E7;
                go(&mut w, tx(back, "queue_withdrawal", vec![addr(&u), addr(&pool), i128v(x)], &[u]));
            }
            w.step(&Op::Time { ledgers: 21 * 17280, secs: 21 * DAYS });
            for k in 0..n {
                let u = user(i + k);
                let x: i128 = w.s.back[&back].ubal.get(&(pool, u)).map(|b| b.q4w.iter().map(|e| e.0).sum()).unwrap_or(0);
                go(&mut w, tx(back, "withdraw", vec![addr(&u), addr(&pool), i128v(x)], &[u]));
            }
        }
    }
    if r.pm(300) {
        // a pool nobody deployed through the factory
        let eve = A::eve();
        go(
            &mut w,
            tx(
                A::rogue(),
                "initialize",
                vec![addr(&eve), strv("rogue"), addr(&p.oracles[0]), u32v(1_000_000), u32v(4), addr(&back), addr(&blnd)],
                &[eve],
            ),
        );
    }
    go(&mut w, tx(emit, "distribute", vec![], &[]));
    if r.pm(700) {
        w.step(&Op::Time { ledgers: 800, secs: 4000 });
        go(&mut w, tx(emit, "distribute", vec![], &[]));
        go(&mut w, tx(back, "gulp_emissions", vec![], &[]));
        for pool in w.pools() {
            go(&mut w, tx(pool, "gulp_emissions", vec![], &[]));
        }
    }
    w
}
