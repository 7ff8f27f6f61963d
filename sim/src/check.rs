//! Oracles: comparison with the reference model, and invariants over the real state alone.

use crate::exec::{Fail, TxOut};
use crate::model::*;
use crate::model2::Ret;
use crate::natives::Fault;
use crate::ops::Tx;
use crate::state::*;
use crate::sv::*;
use crate::world::*;
use soroban_env_host::xdr::{ContractDataDurability, LedgerKey, ScAddress, ScVal};
use std::collections::{BTreeMap, BTreeSet};

pub struct Pred {
    pub auths: BTreeSet<Addr>,
    pub uses: BTreeSet<Addr>,
    pub valued: bool,
    pub notes: Vec<&'static str>,
    pub evs: Vec<crate::exec::Ev>,
    pub res: R<Ret>,
    pub s: S,
    pub opaque: bool,
}

pub type Ps = Vec<&'static str>;

fn add(v: &mut Ps, p: &[&'static str]) {
    for x in p {
        if !v.contains(x) {
            v.push(x);
        }
    }
}

pub fn req_types(t: &Tx) -> Vec<u32> {
    if t.func != "submit" {
        return vec![];
    }
    t.args
        .get(3)
        .and_then(as_vec)
        .unwrap_or(&[])
        .iter()
        .map(|r| fu32(r, "request_type"))
        .collect()
}

/// properties an operation is about
pub fn op_props(kind: Kind, t: &Tx) -> Ps {
    let mut v: Ps = vec![];
    match (kind, t.func.as_str()) {
        (Kind::Pool, "submit") => {
            for ty in req_types(t) {
                add(
                    &mut v,
                    match ty {
                        0 | 1 | 2 => &["C03"],
                        3 => &["C03", "C05"],
                        4 => &["C03", "C05", "C06", "C07"],
                        5 => &["C03"],
                        6 => &["C10", "C05"],
                        7 => &["C10", "C11"],
                        8 => &["C10", "C12"],
                        9 => &["C05", "C07", "C10"],
                        _ => &[],
                    },
                );
            }
            if v.is_empty() {
                add(&mut v, &["C03"]);
            }
        }
        (Kind::Pool, f) => add(
            &mut v,
            match f {
                "bad_debt" | "new_bad_debt_auction" => &["C11"],
                "new_interest_auction" => &["C12"],
                "new_liquidation_auction" => &["C09"],
                "update_status" | "set_status" => &["C07"],
                "gulp_emissions" => &["C15", "C20"],
                "set_emissions_config" | "claim" => &["C15"],
                "queue_set_reserve" | "cancel_set_reserve" | "set_reserve" | "update_pool" => &["C14"],
                "set_admin" => &["C13"],
                "initialize" => &["C23"],
                "get_auction" => &["C10"],
                _ => &["C24"],
            },
        ),
        (Kind::Backstop, f) => add(
            &mut v,
            match f {
                "deposit" => &["C17"],
                "queue_withdrawal" | "dequeue_withdrawal" | "withdraw" => &["C18", "C17"],
                "gulp_emissions" | "add_reward" => &["C20"],
                "gulp_pool_emissions" => &["C20", "C15"],
                "claim" => &["C19"],
                "drop" => &["C21"],
                "draw" => &["C17", "C11", "C13"],
                "donate" => &["C17", "C12", "C13"],
                "update_tkn_val" => &["C07"],
                "pool_data" | "user_balance" => &["C17"],
                "initialize" => &["C23"],
                _ => &["C24"],
            },
        ),
        (Kind::Emitter, f) => add(
            &mut v,
            match f {
                "distribute" | "drop" | "get_last_distro" => &["C21"],
                "queue_swap_backstop" | "cancel_swap_backstop" | "swap_backstop" | "get_queued_swap"
                | "get_backstop" => &["C22"],
                "initialize" => &["C23"],
                _ => &["C24"],
            },
        ),
        (Kind::Factory, _) => add(&mut v, &["C23"]),
        _ => add(&mut v, &["C16"]),
    }
    v
}

/// properties a difference at a state path is about
fn path_props(path: &str, kind: Kind, t: &Tx, v: &mut Ps) {
    let part: Vec<&str> = path.split('/').collect();
    let ops = op_props(kind, t);
    match part[0] {
        "tok" => {
            add(v, &ops);
            if kind == Kind::Pool && t.func == "submit" {
                add(v, &["C01", "C03"]);
            }
            if part[2] == A::backstop().name() && part[1] == A::comet().name() {
                add(v, &["C17"]);
            }
            if kind == Kind::Emitter {
                add(v, &["C21"]);
            }
        }
        "allow" => {
            add(v, &ops);
            add(v, &["C13"]);
        }
        "pool" => match part[2] {
            "data" => match part[4] {
                "b_supply" | "d_supply" => {
                    add(v, &["C02"]);
                    add(v, &ops);
                }
                "credit" => {
                    add(v, &["C04"]);
                    add(v, &ops);
                    if req_types(t).contains(&8) {
                        add(v, &["C12"]);
                    }
                }
                _ => {
                    add(v, &["C04"]);
                    if t.func == "set_reserve" {
                        add(v, &["C14"]);
                    }
                }
            },
            "cfg" | "queued" | "res_list" | "bstop_rate" | "max_positions" => add(v, &["C14"]),
            "status" => add(v, &["C07"]),
            "admin" => add(v, &["C13"]),
            "wiring" | "name" => add(v, &["C23"]),
            "emis_share" | "ecfg" | "edata" | "uemis" => add(v, &["C15"]),
            "pos" => {
                add(v, &["C02"]);
                add(v, &ops);
            }
            "auction" => {
                add(v, &ops);
                if t.func == "submit" {
                    add(v, &["C10"]);
                }
            }
            _ => add(v, &ops),
        },
        "back" => match part[2] {
            "wiring" => add(v, &["C23"]),
            "last_dist" | "rz" | "pool_emis" => {
                add(v, &["C20"]);
                if t.func == "gulp_pool_emissions" || kind == Kind::Pool {
                    add(v, &["C15"]);
                }
            }
            "ecfg" | "edata" | "uemis" => {
                add(v, &["C19"]);
                if t.func == "gulp_emissions" {
                    add(v, &["C20"]);
                }
            }
            "pbal" | "ubal" => {
                add(v, &["C17"]);
                add(v, &ops);
            }
            "drop_list" => add(v, &["C21"]),
            _ => add(v, &ops),
        },
        "emit" => match part[2] {
            "backstop" | "swap" => add(v, &["C22"]),
            "last" => {
                add(v, &["C21"]);
                if t.func == "swap_backstop" {
                    add(v, &["C22"]);
                }
            }
            _ => add(v, &["C21"]),
        },
        "fact" => add(v, &["C23"]),
        _ => add(v, &ops),
    }
}

/// properties a wrongly refused operation is about, beyond those of the operation itself
fn refused_props(w: &World, t: &Tx, kind: Kind, v: &mut Ps) {
    match kind {
        Kind::Pool => {
            let status = w.s.pools.get(&t.to).map(|p| p.status).unwrap_or(0);
            let auctions = ["bad_debt", "new_bad_debt_auction", "new_interest_auction", "new_liquidation_auction"];
            let ty = req_types(t);
            // status may stop a supply, a borrow or a cancelled liquidation at some statuses and nothing else
            if status != 0 && (!ty.is_empty() || auctions.contains(&t.func.as_str())) {
                add(v, &["C07"]);
            }
            // neither utilisation nor the number of positions stops these
            if ty.iter().any(|x| [0, 1, 2, 3, 4, 5].contains(x)) {
                add(v, &["C06"]);
            }
        }
        Kind::Backstop => {
            if ["deposit", "donate", "draw"].contains(&t.func.as_str()) {
                add(v, &["C23"]);
            }
            // a pool without earning shares stops nobody
            if ["deposit", "queue_withdrawal", "dequeue_withdrawal", "withdraw", "claim", "gulp_emissions"].contains(&t.func.as_str()) {
                add(v, &["C19"]);
            }
        }
        _ => {}
    }
}

fn viol(w: &mut World, props: Ps, sig: String, detail: String) {
    w.viol.push(Viol { props, sig, detail, sound: true });
}

fn norm(s: &S) -> S {
    let mut s = s.clone();
    s.other.clear();
    s
}

fn fmt_diff(d: &[(String, String, String)]) -> String {
    d.iter()
        .take(8)
        .map(|(k, a, b)| format!("{k}: required {a}, got {b}"))
        .collect::<Vec<_>>()
        .join("; ")
}

pub fn tx_step(w: &mut World, t: &Tx, kind: Kind, out: &TxOut, m: &Pred, post: &S) {
    let ops = op_props(kind, t);
    let name = format!("{:?}.{}{:?}", kind, t.func, req_types(t));
    let fired = out.fault_fired;
    let real_ok = out.res.is_ok();
    let budget = matches!(t.fault, Fault::Budget(_));

    // a value past the 128-bit range stops the contracts by design (C04's domain), so nothing must go through there
    let past_range = matches!(&m.res, Err(r) if r.why == "arithmetic out of range");
    if t.must && !real_ok && !past_range {
        let mut p = ops.clone();
        add(&mut p, &["C24"]);
        viol(
            w,
            p,
            format!("must:{name}"),
            format!("operation must succeed here but failed with {:?} (model: {})", out.res.as_ref().err().unwrap(),
                m.res.as_ref().err().map(|r| r.why.as_str()).unwrap_or("succeeds")),
        );
        w.viol.last_mut().unwrap().sound = false;
    }

    relevant(w, t, kind, &ops, fired, m, out);

    match (&m.res, real_ok) {
        (Ok(ret), true) => {
            if fired && matches!(t.fault, Fault::TokenTrap(_) | Fault::OracleTrap(_) | Fault::Down(_)) {
                let mut p = ops.clone();
                add(&mut p, &["C16"]);
                if matches!(t.fault, Fault::OracleTrap(_)) {
                    add(&mut p, &["C08"]);
                }
                viol(w, p, format!("faultok:{name}"), format!("reported success although a dependency failed ({:?})", t.fault));
            }
            // authorisation
            for a in &m.auths {
                if !out.auths.contains(a) {
                    viol(w, vec!["C13"], format!("auth:{name}"), format!("did not require the authorisation of {:?}", a));
                }
            }
            if !m.opaque {
                for a in &out.auths {
                    if !m.auths.contains(a) {
                        viol(w, vec!["C24", "C13"], format!("extraauth:{name}"), format!("required the authorisation of {:?}, who is not concerned", a));
                    }
                }
            }
            let mut want = m.s.clone();
            if m.opaque || kind == Kind::Comet || t.func == "claim" {
                // the liquidity pool's own records are taken as it leaves them
                want.comet = post.comet.clone();
                if m.opaque {
                    want.comet_supply = post.comet_supply;
                    want.tok = post.tok.clone();
                    want.allow = post.allow.clone();
                }
                if t.func == "claim" {
                    // allowance the liquidity pool pulled through
                    let lp = A::comet();
                    want.allow.retain(|k, _| k.2 != lp);
                    for (k, v) in &post.allow {
                        if k.2 == lp {
                            want.allow.insert(*k, *v);
                        }
                    }
                }
            }
            let (want, got) = (norm(&want), norm(post));
            if want != got {
                let d = want.diff(&got);
                let mut p: Ps = vec![];
                for (k, _, _) in &d {
                    path_props(k, kind, t, &mut p);
                }
                if matches!(t.fault, Fault::Reenter(..)) && fired {
                    add(&mut p, &["C16"]);
                }
                if d.is_empty() {
                    add(&mut p, &ops);
                }
                if kind == Kind::Pool && m.valued && d.iter().any(|x| x.0.contains("/auction/")) {
                    add(&mut p, &["C08"]);
                }
                viol(w, p, format!("state:{name}"), fmt_diff(&d));
            } else if let Ok(v) = &out.res {
                if !ret.matches(v) {
                    let mut p = ops.clone();
                    add(&mut p, &["C26"]);
                    viol(w, p, format!("ret:{name}"), format!("returned {:?}, required {:?}", v, ret));
                } else if !m.opaque && *ret != Ret::Any {
                    events(w, &name, out, m);
                }
            }
        }
        (Ok(_), false) => {
            let e = out.res.as_ref().err().unwrap();
            let expected = budget
                || m.opaque
                || match &t.fault {
                    Fault::TokenTrap(_) | Fault::OracleTrap(_) => fired,
                    Fault::Down(a) => {
                        fired && (m.uses.contains(a) || !w.env.borrow().oracles.contains_key(a))
                    }
                    _ => false,
                };
            if !expected {
                let mut p = ops.clone();
                add(&mut p, &["C24"]);
                if *e == Fail::Auth {
                    add(&mut p, &["C13"]);
                }
                refused_props(w, t, kind, &mut p);
                let o = w.env.borrow().oracles.clone();
                let odd = o.values().any(|o| {
                    o.prices.values().any(|p| match p.ts(w.led.ts) {
                        Some(x) => x + 80_000 < w.led.ts,
                        None => true,
                    })
                });
                if matches!(t.fault, Fault::Down(_)) || odd || m.valued {
                    add(&mut p, &["C08"]);
                }
                viol(w, p, format!("refused:{name}"), format!("a valid operation failed with {:?}", e));
            }
        }
        (Err(r), true) => {
            if r.props.is_empty() && r.why == "arithmetic out of range" {
                w.st.note("model_overflow_real_ok");
            } else {
                let mut p: Ps = vec![];
                add(&mut p, &r.props);
                if p.is_empty() {
                    add(&mut p, &ops);
                }
                if r.why == NEG || r.why == "dependency down" {
                    add(&mut p, &ops);
                }
                if m.valued && ["C05", "C09", "C12"].iter().any(|x| p.contains(x)) {
                    add(&mut p, &["C08"]);
                }
                viol(w, p, format!("accepted:{name}:{}", r.why), format!("succeeded although it must be rejected: {}", r.why));
            }
        }
        (Err(r), false) => {
            if kind == Kind::Pool && t.func == "claim" && r.why.contains("allowance") && t.fault == Fault::None && w.lapsed.contains(&t.to) {
                // recorded defect: emissions assigned before the allowance lapsed cannot all be collected
                *w.known.entry("C15 lapsed-allowance".into()).or_default() += 1;
            }
        }
    }

    if real_ok {
        ttl(w, out);
        ghost(w, t, kind, out, post);
        let pre = std::mem::take(&mut w.s);
        let wo = m.notes.contains(&"write_off");
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| invariants(w, &name, t, kind, &pre, post, wo)));
        if r.is_err() {
            w.st.note("invariant_overflow");
        }
        w.s = pre;
    }
}

/// what the contracts published about a settled operation, in any order, against what happened
fn events(w: &mut World, name: &str, out: &TxOut, m: &Pred) {
    let mine = |w: &World, a: &Addr| matches!(w.kind(a), Kind::Pool | Kind::Backstop | Kind::Emitter | Kind::Factory);
    let show = |e: &crate::exec::Ev| {
        let t: Vec<String> = e.topics.iter().map(brief).collect();
        format!("{:?}: {} {}", e.from, t.join(" "), brief(&e.data))
    };
    let mut extra: Vec<&crate::exec::Ev> = out.events.iter().filter(|e| mine(w, &e.from)).collect();
    let mut lack = vec![];
    for e in m.evs.iter() {
        match extra.iter().position(|x| *x == e) {
            Some(i) => {
                extra.remove(i);
            }
            None => lack.push(e),
        }
    }
    let all = |v: &[&crate::exec::Ev]| v.iter().map(|e| show(e)).collect::<Vec<_>>().join(" | ");
    let (extra, lack) = (all(&extra), all(&lack));
    *w.st.notes.entry("events".into()).or_default() += m.evs.len() as u64;
    if !extra.is_empty() || !lack.is_empty() {
        viol(w, vec!["C26"], format!("event:{name}"), format!("published [{extra}], what happened is [{lack}]"));
    }
}

/// which properties this step put to the test
fn relevant(w: &mut World, t: &Tx, kind: Kind, ops: &Ps, fired: bool, m: &Pred, out: &TxOut) {
    let mut p = ops.clone();
    if kind == Kind::Pool && out.res.is_ok() {
        add(&mut p, &["C01", "C02", "C04"]);
    }
    if fired || !t.fault.eq(&Fault::None) && out.res.is_err() || req_types(t).len() > 1 && out.res.is_err() {
        add(&mut p, &["C16"]);
    }
    if m.valued {
        add(&mut p, &["C08"]);
    }
    if !m.auths.is_empty() || matches!(&m.res, Err(r) if r.props.contains(&"C13")) {
        add(&mut p, &["C13"]);
    }
    if t.must {
        add(&mut p, &["C24"]);
    }
    if out.res.is_ok() && !m.evs.is_empty() {
        add(&mut p, &["C26"]);
    }
    if out.changed.iter().any(|c| c.2) {
        add(&mut p, &["C25"]);
    }
    if let Err(r) = &m.res {
        add(&mut p, &r.props);
    }
    for x in p {
        *w.st.rel.entry(x).or_default() += 1;
    }
}

const D: u32 = 17280;

fn ttl(w: &mut World, out: &TxOut) {
    let mut bad = vec![];
    for (k, live, written) in &out.changed {
        if !*written {
            continue;
        }
        let (d, live) = match (&**k, live) {
            (LedgerKey::ContractData(d), Some(l)) => (d, *l),
            _ => continue,
        };
        let c = match &d.contract {
            ScAddress::Contract(h) => Addr(h.0),
            _ => continue,
        };
        let kd = w.kind(&c);
        if !matches!(kd, Kind::Pool | Kind::Backstop | Kind::Emitter | Kind::Factory) {
            continue;
        }
        let name = match &d.key {
            ScVal::LedgerKeyContractInstance => "Instance".to_string(),
            ScVal::Vec(Some(v)) if !v.is_empty() => as_sym(&v[0]).unwrap_or_default(),
            x => as_sym(x).unwrap_or_default(),
        };
        let temp = d.durability == ContractDataDurability::Temporary;
        let floor = match (temp, name.as_str()) {
            (true, "Auction") => 45,
            (true, "ResInit") => 100,
            (true, "DropList") => 100,
            (false, "Instance") => 30,
            (false, "Positions") | (false, "UserEmis") | (false, "UserBalance") | (false, "UEmisData") => 100,
            (false, _) => 45,
            _ => 45,
        };
        if live < w.led.seq.saturating_add(floor * D) {
            bad.push((kd, name, temp, live.saturating_sub(w.led.seq), floor * D));
        }
    }
    for (kd, name, temp, left, floor) in bad {
        viol(
            w,
            vec!["C25"],
            format!("ttl:{:?}.{name}.{temp}", kd),
            format!("record {name} written with a lifetime of {left} ledgers, needs {floor}"),
        );
    }
}

/// passage of time alone
pub fn time_step(w: &mut World, post: &S) {
    let mut want = norm(&w.s);
    let mut got = norm(post);
    want.seq = got.seq;
    want.ts = got.ts;
    for (p, x) in want.pools.iter_mut() {
        if let Some(y) = got.pools.get(p) {
            x.auctions.retain(|k, _| y.auctions.contains_key(k));
            x.queued.retain(|k, _| y.queued.contains_key(k));
        }
    }
    for (b, x) in want.back.iter_mut() {
        if got.back.get(b).map(|y| y.drop_list.is_none()).unwrap_or(false) {
            x.drop_list = None;
        }
    }
    for p in got.pools.values_mut() {
        let _ = p;
    }
    if want != got {
        let d = want.diff(&got);
        let mut p: Ps = vec!["C25"];
        for (k, _, _) in &d {
            if k.starts_with("emit") {
                add(&mut p, &["C22"]);
            }
            if k.contains("/pos/") {
                add(&mut p, &["C02"]);
            }
        }
        viol(w, p, "time".into(), format!("changed by the passage of time alone: {}", fmt_diff(&d)));
    }
}

fn supply(s: &S, t: &Addr) -> i128 {
    s.tok
        .range((*t, Addr([0; 32]))..=(*t, Addr([255; 32])))
        .map(|x| *x.1)
        .sum()
}

fn ghost(w: &mut World, t: &Tx, kind: Kind, out: &TxOut, post: &S) {
    let ret = out.res.as_ref().ok().and_then(as_i128).unwrap_or(0);
    match (kind, t.func.as_str()) {
        (Kind::Pool, _) if !w.s.pools.contains_key(&t.to) => {}
        (Kind::Pool, "gulp_emissions") => {
            // what left the backstop's records
            let b = w.s.pools[&t.to].backstop;
            let f = |s: &S| s.back.get(&b).and_then(|x| x.pool_emis.get(&t.to)).cloned().unwrap_or(0);
            let d = f(&w.s) - f(post);
            let out = *w.g.pool_in.get(&t.to).unwrap_or(&0) - *w.g.pool_out.get(&t.to).unwrap_or(&0);
            let bl = w.s.pools[&t.to].blnd;
            let live = w.s.allow.get(&(bl, b, t.to)).map(|a| a.1 >= w.s.seq).unwrap_or(false);
            if out > 0 && !live {
                w.lapsed.insert(t.to);
            }
            *w.g.pool_in.entry(t.to).or_insert(0) += d;
            *w.g.b_pool.entry(b).or_insert(0) += d;
        }
        (Kind::Pool, "claim") => {
            let (b, bl) = (w.s.pools[&t.to].backstop, w.s.pools[&t.to].blnd);
            let moved = (w.s.bal(&bl, &b) - post.bal(&bl, &b)).max(ret);
            *w.g.pool_out.entry(t.to).or_insert(0) += moved;
        }
        (Kind::Backstop, "claim") => {
            let moved = w.s.bal(&A::blnd(), &t.to) - post.bal(&A::blnd(), &t.to);
            *w.g.b_out.entry(t.to).or_insert(0) += moved.max(ret);
        }
        (Kind::Backstop, "drop") | (Kind::Emitter, "drop") => {
            let d = supply(post, &A::blnd()) - supply(&w.s, &A::blnd());
            w.g.drops += d;
        }
        _ => {}
    }
    for (e, x) in &post.emit {
        let pre = match w.s.emit.get(e) {
            Some(p) => p.clone(),
            None => continue,
        };
        for (b, l) in &x.last {
            if *l > w.led.ts {
                viol(w, vec!["C21", "C22"], "future".into(), "distribution time in the future".into());
            }
            match pre.last.get(b) {
                Some(o) if *b == pre.backstop => {
                    w.g.dist_secs += l.saturating_sub(*o);
                    *w.g.b_in.entry(*b).or_insert(0) += (*l as i128 - *o as i128) * S7;
                }
                // starts to earn only now
                Some(o) if l != o => {
                    w.returned.insert(*b);
                }
                _ => {}
            }
        }
    }
}

fn surplus(w: &World, s: &S, p: &Addr, a: &Addr, d: &ResData) -> Option<i128> {
    let _ = w;
    let liab = mdc(d.d_supply, d.d_rate, S9).ok()?;
    let sup = mdf(d.b_supply, d.b_rate, S9).ok()?;
    Some(s.bal(a, p) + liab - sup - d.credit)
}

fn invariants(w: &mut World, name: &str, t: &Tx, kind: Kind, pre: &S, post: &S, write_off: bool) {
    let mut out: Vec<(Ps, &str, String)> = vec![];
    let ops = op_props(kind, t);
    for (p, x) in &post.pools {
        let prep = pre.pools.get(p);
        let mut sum_b: BTreeMap<u32, i128> = BTreeMap::new();
        let mut sum_d: BTreeMap<u32, i128> = BTreeMap::new();
        for (u, ps) in &x.pos {
            for (m, is_d) in [(&ps.liab, true), (&ps.coll, false), (&ps.supp, false)] {
                for (i, v) in m {
                    if *v <= 0 {
                        out.push((vec!["C02"], "pos_zero", format!("{:?} has a recorded balance of {v} in reserve {i}", u)));
                    }
                    *(if is_d { &mut sum_d } else { &mut sum_b }).entry(*i).or_insert(0) += v;
                }
            }
        }
        for (i, a) in x.res_list.iter().enumerate() {
            let i = i as u32;
            let d = match x.data.get(a) {
                Some(d) => d,
                None => {
                    out.push((vec!["C14"], "res_nodata", format!("reserve {:?} listed without data", a)));
                    continue;
                }
            };
            let (sb, sd) = (*sum_b.get(&i).unwrap_or(&0), *sum_d.get(&i).unwrap_or(&0));
            if sb != d.b_supply || sd != d.d_supply {
                out.push((
                    vec!["C02"],
                    "sums".into(),
                    format!("reserve {:?}: supply shares recorded {} held {}, debt shares recorded {} held {}", a, d.b_supply, sb, d.d_supply, sd),
                ));
            }
            if d.credit < 0 {
                out.push((vec!["C12"], "credit_neg", format!("backstop credit {}", d.credit)));
            }
            if d.ir_mod < S9 / 10 || d.ir_mod > 10 * S9 {
                out.push((vec!["C04"], "ir_mod", format!("rate modifier {}", d.ir_mod)));
            }
            if let Some(c) = x.cfg.get(a) {
                if c.index != i {
                    out.push((vec!["C14"], "res_index", format!("reserve {:?} at {} has index {}", a, i, c.index)));
                }
            }
            let now = surplus(w, post, p, a, d);
            if let Some(s) = now {
                let before = prep.and_then(|y| y.data.get(a)).and_then(|d0| surplus(w, pre, p, a, d0));
                if let Some(b) = before {
                    if s < b && !write_off {
                        out.push((vec!["C01"], "surplus_down", format!("reserve {:?}: surplus fell from {b} to {s}", a)));
                    }
                }
                if let Some(d0) = prep.and_then(|y| y.data.get(a)) {
                    if d.credit < d0.credit && !req_types(t).contains(&8) {
                        out.push((vec!["C12"], "credit_fell", format!("reserve {:?}: backstop credit fell from {} to {} without an interest auction filled", a, d0.credit, d.credit)));
                    }
                    let fell = d.d_rate < d0.d_rate || d.b_rate < d0.b_rate;
                    if fell {
                        out.push((vec!["C04"], "rate_down", format!("reserve {:?}: value per share fell", a)));
                    }
                    if d.last_time < d0.last_time {
                        out.push((vec!["C04"], "accrual_time", format!("reserve {:?}: accrual time moved back", a)));
                    }
                }
            }
        }
        if let Some(y) = prep {
            if !x.res_list.starts_with(&y.res_list) {
                out.push((vec!["C14"], "res_order", "reserve list reordered or shortened".into()));
            }
        }
        if x.res_list.len() > 32 {
            out.push((vec!["C14"], "res_many", "more than 32 reserves".into()));
        }
        if x.bstop_rate >= S7 as u32 {
            out.push((vec!["C14"], "take_rate", "take rate at 100 percent".into()));
        }
        // emissions: nothing is promised beyond what was assigned
        let mut owed = 0i128;
        let mut fine = true;
        for (id, (idx, last)) in &x.edata {
            let i = id / 2;
            let a = match x.res_list.get(i as usize) {
                Some(a) => a,
                None => continue,
            };
            let sc = 10i128.pow(x.cfg.get(a).map(|c| c.decimals).unwrap_or(7));
            if let Some((exp, eps)) = x.ecfg.get(id) {
                if *exp > *last {
                    owed += (*exp - *last) as i128 * *eps as i128;
                }
            }
            let mut have: BTreeSet<Addr> = BTreeSet::new();
            for ((u, k), (ui, acc)) in &x.uemis {
                if k != id {
                    continue;
                }
                have.insert(*u);
                let b = bal_side(x, u, *id);
                match mdf(b, idx - ui, sc) {
                    Ok(v) => owed += acc + v,
                    Err(_) => fine = false,
                }
                if ui > idx {
                    out.push((vec!["C15"], "idx_ahead", "an account's emission index is ahead".into()));
                }
            }
            for u in x.pos.keys() {
                if !have.contains(u) {
                    let b = bal_side(x, u, *id);
                    match mdf(b, *idx, sc) {
                        Ok(v) => owed += v,
                        Err(_) => fine = false,
                    }
                }
            }
        }
        let got = *w.g.pool_in.get(p).unwrap_or(&0) - *w.g.pool_out.get(p).unwrap_or(&0);
        if fine && owed > got {
            out.push((vec!["C15"], "pool_emis_over", format!("pool {:?}: emissions owed {owed} exceed what is left of those assigned, {got}", p)));
        }
    }
    for (b, x) in &post.back {
        let mut sums: BTreeMap<Addr, (i128, i128)> = BTreeMap::new();
        for ((p, u), ub) in &x.ubal {
            let q: i128 = ub.q4w.iter().map(|e| e.0).sum();
            if ub.shares < 0 || ub.q4w.iter().any(|e| e.0 < 0) {
                out.push((vec!["C17", "C18"], "ubal_neg", format!("{:?} negative in {:?}", u, p)));
            }
            if ub.q4w.len() > 21 {
                out.push((vec!["C18"], "q4w_many", "more than 21 queue entries".into()));
            }
            let e = sums.entry(*p).or_default();
            e.0 += ub.total();
            e.1 += q;
        }
        let mut held = 0;
        for p in x.pbal.keys().chain(sums.keys()).collect::<BTreeSet<_>>() {
            let pb = x.pbal.get(p).cloned().unwrap_or_default();
            let (a, q) = sums.get(p).cloned().unwrap_or_default();
            held += pb.tokens;
            if pb.shares != a || pb.q4w != q {
                out.push((
                    vec!["C17"],
                    "bsums".into(),
                    format!("pool {:?}: recorded shares {} queued {}, held {a} queued {q}", p, pb.shares, pb.q4w),
                ));
            }
            if pb.tokens < 0 {
                out.push((vec!["C17"], "btokens_neg", "negative tokens".into()));
            }
        }
        if post.bal(&x.token, b) < held {
            out.push((vec!["C17"], "unbacked", format!("backstop holds {} for recorded {held}", post.bal(&x.token, b))));
        }
        if x.rz.iter().collect::<BTreeSet<_>>().len() != x.rz.len() {
            out.push((vec!["C20"], "rz_dup", "reward zone lists a pool twice".into()));
        }
        // emissions
        let mut dep = 0i128;
        let mut fine = true;
        for (p, (idx, last)) in &x.edata {
            if let Some((exp, eps)) = x.ecfg.get(p) {
                if *exp > *last {
                    dep += (*exp - *last) as i128 * *eps as i128;
                }
            }
            for ((q, u), ub) in &x.ubal {
                if q != p {
                    continue;
                }
                let ui = x.uemis.get(&(*p, *u)).map(|e| e.0).unwrap_or(0);
                match mdf(ub.shares, idx - ui, S7) {
                    Ok(v) => dep += v,
                    Err(_) => fine = false,
                }
            }
        }
        dep += x.uemis.values().map(|e| e.1).sum::<i128>();
        let em = *w.g.b_in.get(b).unwrap_or(&0);
        let out_b = *w.g.b_out.get(b).unwrap_or(&0);
        let pools: i128 = x.pool_emis.values().sum::<i128>() + *w.g.b_pool.get(b).unwrap_or(&0);
        let by_op = if matches!((kind, t.func.as_str()), (Kind::Backstop, "gulp_emissions")) { "C20" } else { "C19" };
        if fine && dep + out_b > em * 7 / 10 {
            out.push((
                vec![by_op, "C19"],
                "b_emis_over".into(),
                format!("depositors' emissions owed {dep} plus claimed {out_b} exceed their 70 percent of {em}"),
            ));
        }
        if pools > em * 3 / 10 {
            out.push((vec!["C20"], "p_emis_over", format!("pools were assigned {pools} of {em} emitted")));
        }
        let outst: i128 = x.pool_emis.values().sum::<i128>()
            + post
                .pools
                .iter()
                .filter(|(_, y)| y.backstop == *b)
                .map(|(p, _)| w.g.pool_in.get(p).unwrap_or(&0) - w.g.pool_out.get(p).unwrap_or(&0))
                .sum::<i128>();
        let cash = post.bal(&x.blnd, b);
        if fine && cash < dep + outst {
            out.push((
                vec!["C19", "C20", "C15"],
                "emis_unbacked".into(),
                format!("backstop holds {cash} BLND but owes {dep} to depositors and {outst} to pools"),
            ));
        }
    }
    let bl = supply(post, &A::blnd());
    let exp = w.g.outside_blnd + w.g.drops + w.g.dist_secs as i128 * S7;
    if bl != exp {
        out.push((vec!["C21"], "blnd_supply", format!("BLND in existence {bl}, one per second plus drops gives {exp}")));
    }
    let _ = ops;
    for (p, s, d) in out {
        let mut pp: Ps = vec![];
        add(&mut pp, &p);
        if !w.returned.is_empty() && ["b_emis_over", "p_emis_over", "emis_unbacked"].contains(&s) {
            // recorded defect: a backstop that became current again takes the time it was not current for its own
            *w.known.entry("C20 swap-back".to_string()).or_default() += 1;
            continue;
        }
        viol(w, pp, format!("inv:{s}:{name}"), d);
    }
}

fn bal_side(x: &PoolS, u: &Addr, id: u32) -> i128 {
    let i = id / 2;
    match x.pos.get(u) {
        Some(p) => {
            if id % 2 == 0 {
                *p.liab.get(&i).unwrap_or(&0)
            } else {
                p.coll.get(&i).unwrap_or(&0) + p.supp.get(&i).unwrap_or(&0)
            }
        }
        None => 0,
    }
}
