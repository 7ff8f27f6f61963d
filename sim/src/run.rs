//! Batch runner: seeded search over many simulated runs, minimisation, replay and evidence.

use crate::gen;
use crate::genesis::{self, *};
use crate::ops::*;
use crate::prng::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const STACK: usize = 256 << 20;

pub struct Out {
    pub idx: u64,
    pub seed: u64,
    pub variant: u64,
    pub st: Stats,
    pub ops: Vec<Op>,
    pub trans: Vec<u64>,
    pub digest: u64,
    pub viol: Vec<Viol>,
    pub known: BTreeMap<String, u64>,
    pub faulty: bool,
}

pub fn mix(a: u64, b: u64, c: u64) -> u64 {
    let mut f = Fnv::new();
    f.u(a);
    f.u(b);
    f.u(c);
    let mut x = f.0;
    splitmix(&mut x)
}
pub fn prop_no(p: &str) -> u64 {
    let mut f = Fnv::new();
    f.s(p);
    f.0
}

pub struct Cache {
    pub wasm: Wasm,
    pub map: HashMap<u64, World>,
}
impl Cache {
    pub fn get(&mut self, v: u64) -> World {
        if self.map.len() > 40 {
            self.map.clear();
        }
        let w = &self.wasm;
        let g = self.map.entry(v).or_insert_with(|| genesis::genesis(w, v));
        let mut x = g.fork();
        x.viol = g.viol.clone();
        x.known = g.known.clone();
        x
    }
}

/// Which world a run starts from: a function of property, master seed and index only.
pub fn variant_of(prop: &str, master: u64, idx: u64) -> u64 {
    let mut r = Rng::new(mix(prop_no(prop), master ^ 0xabcdef, idx / 8));
    let shapes = gen::emphasis(prop).1;
    let mut v = r.below(32);
    if r.pm(40) {
        v = 32 + r.below(100_000);
    }
    if !shapes.is_empty() && r.pm(600) {
        let want = *r.pick(shapes);
        for k in 0..64 {
            if genesis::shape(v + k) == want {
                return v + k;
            }
        }
    }
    v
}

pub fn one(c: &mut Cache, prop: &str, master: u64, idx: u64) -> Out {
    let seed = mix(prop_no(prop), master, idx);
    let variant = variant_of(prop, master, idx);
    let mut w = c.get(variant);
    let own = |w: &World| w.viol.iter().any(|v| v.props.contains(&prop));
    let mut r = Rng::new(seed);
    let conf = gen::conf(prop, &mut r);
    let faulty = conf.fault > 0;
    let (mut ops, mut trans) = (vec![], vec![]);
    if !own(&w) {
        let mut g = gen::Gen::new(&mut w, r, conf, Some(prop.to_string()));
        g.run();
        ops = std::mem::take(&mut g.ops);
        trans = std::mem::take(&mut g.trans);
    }
    Out { idx, seed, variant, st: w.st.clone(), digest: w.digest(), viol: w.viol, ops, trans, known: w.known, faulty }
}

/// Re-execute a list of operations from a world; stops at the first violation of `prop` (kind `sig` if given).
pub fn execute(c: &mut Cache, variant: u64, ops: &[Op], prop: &str, sig: Option<&str>) -> (Option<(usize, Viol)>, u64) {
    let mut w = c.get(variant);
    let hit = |w: &World, from: usize| -> Option<Viol> {
        w.viol[from..]
            .iter()
            .find(|v| v.props.contains(&prop) && sig.map(|s| v.sig == s).unwrap_or(true))
            .cloned()
    };
    if let Some(v) = hit(&w, 0) {
        return (Some((0, v)), w.digest());
    }
    for (i, o) in ops.iter().enumerate() {
        let from = w.viol.len();
        w.step(o);
        if let Some(v) = hit(&w, from) {
            return (Some((i + 1, v)), w.digest());
        }
    }
    (None, w.digest())
}

fn attempt(c: &mut Cache, variant: u64, ops: &[Op], prop: &str, sig: Option<&str>) -> (Option<(usize, Viol)>, u64) {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| execute(c, variant, ops, prop, sig))).unwrap_or((None, 0))
}

/// Delta debugging over the operation and fault sequence, then simplification of what is left.
pub fn minimise(c: &mut Cache, variant: u64, ops: &[Op], prop: &str, v: &Viol, limit: Duration) -> (Vec<Op>, u64) {
    let t = Instant::now();
    let mut tries = 0u64;
    let mut cur: Vec<Op> = ops.to_vec();
    let sig = v.sig.clone();
    if v.sound {
        let mut n = 2usize;
        while cur.len() >= 2 && t.elapsed() < limit {
            let chunk = (cur.len() + n - 1) / n;
            let mut reduced = false;
            let mut i = 0;
            while i < cur.len() && t.elapsed() < limit {
                let mut cand = cur.clone();
                cand.drain(i..(i + chunk).min(cur.len()));
                tries += 1;
                if let (Some((k, _)), _) = attempt(c, variant, &cand, prop, Some(&sig)) {
                    cand.truncate(k);
                    cur = cand;
                    n = n.saturating_sub(1).max(2);
                    reduced = true;
                    i = 0;
                    if chunk > cur.len() {
                        break;
                    }
                    continue;
                }
                i += chunk;
            }
            if !reduced {
                if chunk <= 1 {
                    break;
                }
                n = (n * 2).min(cur.len());
            }
        }
        // drop faults, merge clock steps
        let mut i = 0;
        while i < cur.len() && t.elapsed() < limit {
            let mut cand = cur.clone();
            let mut changed = false;
            if let Op::Tx(x) = &mut cand[i] {
                if x.fault != crate::natives::Fault::None {
                    x.fault = crate::natives::Fault::None;
                    changed = true;
                }
            }
            if changed {
                tries += 1;
                if let (Some((k, _)), _) = attempt(c, variant, &cand, prop, Some(&sig)) {
                    cand.truncate(k);
                    cur = cand;
                }
            }
            i += 1;
        }
    }
    (cur, tries)
}

#[derive(Default)]
struct Agg {
    st: Stats,
    runs: u64,
    faulty: u64,
    drained: u64,
    trans: HashSet<u64>,
    digests: HashSet<u64>,
    nontrivial: u64,
    ops: u64,
    variants: BTreeSet<u64>,
    known: BTreeMap<String, u64>,
    others: BTreeMap<String, u64>,
    samples: Vec<Value>,
    found: Option<Out>,
    first: BTreeMap<u64, (u64, u64)>,
    mismatch: Vec<u64>,
    rechecked: u64,
}

fn thash(t: &[u64]) -> u64 {
    let mut f = Fnv::new();
    for x in t {
        f.u(*x);
    }
    f.0
}

pub struct Args {
    pub prop: String,
    pub tier: String,
    pub master: u64,
    pub secs: f64,
    pub max: u64,
    pub threads: usize,
    pub evidence: Option<String>,
    pub replays: String,
    pub known: Option<String>,
}

/// operations of a recorded genuine defect, run again; true when it still shows
fn known_shows(c: &mut Cache, key: &str, file: &str) -> Result<bool, String> {
    let s = std::fs::read_to_string(file).map_err(|e| format!("{file}: {e}"))?;
    let v: Value = serde_json::from_str(&s).map_err(|e| format!("{file}: {e}"))?;
    let ops: Vec<Op> = v["ops"].as_array().ok_or("no ops")?.iter().map(Op::from_json).collect();
    Ok(shows(c, v["variant"].as_u64().unwrap_or(0), &ops, key).is_some())
}
fn shows(c: &mut Cache, variant: u64, ops: &[Op], key: &str) -> Option<usize> {
    let mut w = c.get(variant);
    for (i, o) in ops.iter().enumerate() {
        w.step(o);
        if w.known.contains_key(key) {
            return Some(i + 1);
        }
    }
    None
}
/// Search for a recorded defect's shortest demonstration and write it.
pub fn mkknown(key: &str, prop: &str, file: &str, tries: u64) -> i32 {
    let mut c = Cache { wasm: Wasm::load(), map: HashMap::new() };
    let mut best: Option<(u64, Vec<Op>)> = None;
    for idx in 0..tries {
        let o = one(&mut c, prop, 7, idx);
        if !o.known.contains_key(key) {
            continue;
        }
        let mut cur = o.ops.clone();
        match shows(&mut c, o.variant, &cur, key) {
            Some(k) => cur.truncate(k),
            None => continue,
        }
        // the defect itself should show without any injected fault
        let calm: Vec<Op> = cur
            .iter()
            .map(|o| match o {
                Op::Tx(t) => Op::Tx(Tx { fault: crate::natives::Fault::None, ..t.clone() }),
                o => o.clone(),
            })
            .collect();
        if let Some(k) = shows(&mut c, o.variant, &calm, key) {
            cur = calm;
            cur.truncate(k);
        }
        let mut chunk = cur.len() / 2;
        while chunk >= 1 {
            let mut i = 0;
            let mut any = false;
            while i < cur.len() {
                let mut cand = cur.clone();
                cand.drain(i..(i + chunk).min(cur.len()));
                if let Some(k) = shows(&mut c, o.variant, &cand, key) {
                    cand.truncate(k);
                    cur = cand;
                    any = true;
                } else {
                    i += chunk;
                }
            }
            if !any {
                chunk /= 2;
            }
        }
        println!("{idx}: {} operations", cur.len());
        if best.as_ref().map(|b| cur.len() < b.1.len()).unwrap_or(true) {
            best = Some((o.variant, cur));
        }
    }
    match best {
        Some((v, ops)) => {
            let j = json!({"known": key, "variant": v, "ops": ops.iter().map(|x| x.to_json()).collect::<Vec<_>>()});
            std::fs::write(file, serde_json::to_string_pretty(&j).unwrap()).expect("write");
            0
        }
        None => 1,
    }
}
fn report_known(a: &Args, wasm: &Wasm) -> Result<Vec<Value>, String> {
    let f = match &a.known {
        Some(f) => f.clone(),
        None => return Ok(vec![]),
    };
    let s = std::fs::read_to_string(&f).map_err(|e| format!("{f}: {e}"))?;
    let v: Value = serde_json::from_str(&s).map_err(|e| format!("{f}: {e}"))?;
    let dir = std::path::Path::new(&f).parent().unwrap().to_path_buf();
    let mut out = vec![];
    for k in v["open"].as_array().cloned().unwrap_or_default() {
        if k["property"].as_str() != Some(&a.prop) {
            continue;
        }
        let key = k["key"].as_str().unwrap_or("").to_string();
        let file = dir.join(k["demonstration"].as_str().unwrap_or("")).to_string_lossy().to_string();
        let wasm = wasm.clone();
        let (key2, file2) = (key.clone(), file.clone());
        let r = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || known_shows(&mut Cache { wasm, map: HashMap::new() }, &key2, &file2))
            .unwrap()
            .join()
            .unwrap_or(Err("died".into()))?;
        if r {
            println!("KNOWN-FINDING: property={} {}", a.prop, k["what"].as_str().unwrap_or(""));
        } else {
            println!("note: the recorded finding {key} no longer shows");
        }
        out.push(json!({"key": key, "shows": r}));
    }
    Ok(out)
}

const DET: u64 = 16;

pub fn batch(a: &Args) -> i32 {
    let wasm = match std::panic::catch_unwind(Wasm::load) {
        Ok(w) => w,
        Err(_) => {
            eprintln!("cannot load the contracts' wasm");
            return 2;
        }
    };
    let known = match report_known(a, &wasm) {
        Ok(k) => k,
        Err(e) => {
            eprintln!("known findings: {e}");
            vec![]
        }
    };
    let t0 = Instant::now();
    let limit = Duration::from_secs_f64(a.secs);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let agg = Mutex::new(Agg::default());
    let died = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for th in 0..a.threads {
            let (wasm, next, stop, agg, died) = (wasm.clone(), &next, &stop, &agg, &died);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, move || {
                    let mut c = Cache { wasm, map: HashMap::new() };
                    let mut re: Vec<u64> = vec![];
                    loop {
                        if stop.load(Ordering::SeqCst) || t0.elapsed() > limit {
                            break;
                        }
                        let idx = next.fetch_add(1, Ordering::SeqCst);
                        if idx >= a.max {
                            break;
                        }
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(&mut c, &a.prop, a.master, idx)));
                        let o = match r {
                            Ok(o) => o,
                            Err(e) => {
                                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                                eprintln!("run {idx} died: {:?}", m);
                                died.fetch_add(1, Ordering::SeqCst);
                                continue;
                            }
                        };
                        let mine = o.viol.iter().any(|v| v.props.contains(&a.prop.as_str()));
                        let mut g = agg.lock().unwrap();
                        absorb(&mut g, a, &o);
                        if idx < DET {
                            g.first.insert(idx, (o.digest, thash(&o.trans)));
                        }
                        if mine {
                            let better = g.found.as_ref().map(|f| o.idx < f.idx).unwrap_or(true);
                            if better {
                                g.found = Some(o);
                            }
                            stop.store(true, Ordering::SeqCst);
                        }
                        drop(g);
                        re.push(idx);
                    }
                    // the same seeds again, on another worker
                    for idx in 0..DET {
                        if idx as usize % a.threads == th || re.contains(&idx) || stop.load(Ordering::SeqCst) {
                            continue;
                        }
                        if (idx as usize + 1) % a.threads != th && a.threads > 2 {
                            continue;
                        }
                        let want = agg.lock().unwrap().first.get(&idx).cloned();
                        if let Some((d, h)) = want {
                            let o = one(&mut c, &a.prop, a.master, idx);
                            let mut g = agg.lock().unwrap();
                            g.rechecked += 1;
                            if o.digest != d || thash(&o.trans) != h {
                                g.mismatch.push(idx);
                            }
                        }
                    }
                })
                .expect("thread");
        }
    });
    let mut g = agg.into_inner().unwrap();
    let search = t0.elapsed().as_secs_f64();
    let mut code = 0;
    if !g.mismatch.is_empty() {
        eprintln!("not deterministic: runs {:?} differ when repeated", g.mismatch);
        code = 2;
    }
    if died.load(Ordering::SeqCst) > 0 {
        eprintln!("{} runs died in the harness", died.load(Ordering::SeqCst));
        if g.found.is_none() {
            code = 2;
        }
    }
    if g.runs == 0 {
        eprintln!("no run completed");
        code = 2;
    }
    let mut nviol = 0;
    let mut tries = 0;
    if let Some(o) = g.found.take() {
        nviol = 1;
        let v = pick(&o.viol, &a.prop);
        let mut ops = o.ops.clone();
        let mut v2 = v.clone();
        let mut dig = 0;
        let (res, wasm2) = ((), wasm.clone());
        let _ = res;
        std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, || {
                    let mut c = Cache { wasm: wasm2, map: HashMap::new() };
                    let lim = Duration::from_secs(if a.tier == "quick" { 40 } else { 120 });
                    let (m, t) = minimise(&mut c, o.variant, &ops, &a.prop, &v, lim);
                    tries = t;
                    let (r, d) = execute(&mut c, o.variant, &m, &a.prop, Some(&v.sig));
                    match r {
                        Some((k, x)) => {
                            ops = m[..k].to_vec();
                            v2 = x;
                            dig = d;
                        }
                        None => {
                            let (r, d) = execute(&mut c, o.variant, &ops, &a.prop, None);
                            dig = d;
                            if let Some((k, x)) = r {
                                ops.truncate(k);
                                v2 = x;
                            }
                        }
                    }
                })
                .expect("thread");
        });
        std::fs::create_dir_all(&a.replays).ok();
        let path = format!("{}/{}-{:016x}.json", a.replays, a.prop, o.seed);
        let rep = json!({
            "property": a.prop, "master_seed": a.master, "index": o.idx, "seed": format!("{:016x}", o.seed), "variant": o.variant,
            "violation": v2.sig, "detail": v2.detail, "properties": v2.props, "state_digest": format!("{dig:016x}"),
            "operations_before_minimisation": o.ops.len(), "minimisation_runs": tries,
            "ops": ops.iter().map(|x| x.to_json()).collect::<Vec<_>>(),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).expect("replay file");
        // in a fresh process it must fail the same way
        let me = std::env::current_exe().expect("self");
        let out = std::process::Command::new(me).arg("replay").arg(&path).arg("--verify").output().expect("replay");
        let again = out.status.code();
        println!("violation: {} :: {}", v2.sig, v2.detail);
        println!("minimised from {} to {} operations in {} executions; replay in a fresh process: {}", o.ops.len(), ops.len(), tries,
            if again == Some(1) { "reproduced exactly" } else { "NOT reproduced" });
        if again == Some(1) {
            println!("VIOLATION property={} replay={}", a.prop, path);
            code = 1;
        } else {
            eprintln!("the violation found does not replay: {}", String::from_utf8_lossy(&out.stdout));
            code = 2;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    if let Some(f) = &a.evidence {
        let e = evidence(a, &g, search, wall, nviol, died.load(Ordering::SeqCst), &known);
        std::fs::write(f, serde_json::to_string_pretty(&e).unwrap()).expect("evidence");
    }
    println!(
        "{} {}: {} runs, {} transactions ({} ok), {} distinct end states, {} distinct transitions, {:.1}s",
        a.prop, a.tier, g.runs, g.st.tx, g.st.ok, g.digests.len(), g.trans.len(), wall
    );
    code
}

fn pick(v: &[Viol], prop: &str) -> Viol {
    let own: Vec<&Viol> = v.iter().filter(|x| x.props.contains(&prop)).collect();
    own.iter().find(|x| x.sound).unwrap_or(&own[0]).to_owned().clone()
}

fn absorb(g: &mut Agg, a: &Args, o: &Out) {
    g.runs += 1;
    g.faulty += o.faulty as u64;
    g.drained += (o.st.notes.get("drain").is_some()) as u64;
    g.st.merge(&o.st);
    g.ops += o.ops.len() as u64;
    g.trans.extend(o.trans.iter());
    g.variants.insert(o.variant);
    let rel = o.st.rel.get(a.prop.as_str()).cloned().unwrap_or(0);
    if g.digests.insert(o.digest) && rel > 0 {
        g.nontrivial += 1;
    }
    for (k, n) in &o.known {
        *g.known.entry(k.clone()).or_default() += n;
    }
    for v in &o.viol {
        if !v.props.contains(&a.prop.as_str()) {
            *g.others.entry(format!("{:?} {}", v.props, v.sig)).or_default() += 1;
        }
    }
    if g.samples.len() < 2 && o.ops.len() > 10 {
        g.samples.push(json!({
            "index": o.idx, "seed": format!("{:016x}", o.seed), "variant": o.variant, "operations": o.ops.len(),
            "first_operations": o.ops.iter().take(14).map(|x| x.to_json()).collect::<Vec<_>>(),
            "end_state_digest": format!("{:016x}", o.digest),
        }));
    }
}

fn evidence(a: &Args, g: &Agg, search: f64, wall: f64, nviol: i64, died: u64, known: &[Value]) -> Value {
    let ops: BTreeMap<&String, Value> = g.st.by.iter().map(|(k, v)| (k, json!({"accepted": v.0, "rejected": v.1}))).collect();
    let faults: BTreeMap<&&str, Value> = g.st.faults.iter().map(|(k, v)| (k, json!({"configured": v.0, "fired": v.1}))).collect();
    let mut net = BTreeMap::new();
    let mut probes = BTreeMap::new();
    for (k, v) in &g.st.notes {
        if k.starts_with("net_") || k == "clock_jump" || k.starts_with("oracle_") || k == "outage" {
            net.insert(k.clone(), *v);
        } else {
            probes.insert(k.clone(), *v);
        }
    }
    json!({
        "property": a.prop,
        "tier": a.tier,
        "seed": a.master,
        "level": "exploration",
        "coverage": {
            "evaluations": g.runs,
            "distinct_nontrivial": g.nontrivial,
            "rule": format!("one evaluation = one simulated run: a world, a swarm configuration, a schedule of client operations, clock steps, price moves and faults, all drawn from the run's seed; non-trivial = the run's end state differs from every other run's and at least one of its steps exercised {} (an operation or a fault this property constrains, judged by the oracle)", a.prop),
            "samples": g.samples,
            "transactions": g.st.tx,
            "transactions_accepted": g.st.ok,
            "transactions_rejected": g.st.rejected,
            "steps_exercising_the_property": g.st.rel.get(a.prop.as_str()).cloned().unwrap_or(0),
            "operations_by_kind": ops,
            "faults": faults,
            "environment_faults": net,
            "archived_entries_restored": g.st.archived,
            "rare_conditions": probes,
            "must_succeed_operations": g.st.musts,
            "runs_with_faults_enabled": g.faulty,
            "runs_fault_free": g.runs - g.faulty,
            "runs_ending_in_a_recovery_phase": g.drained,
            "runs_per_hour": (g.runs as f64 / search * 3600.0) as u64,
            "simulated_seconds": g.st.secs,
            "simulated_years": (g.st.secs as f64 / 31_557_600.0 * 10.0).round() / 10.0,
            "simulated_ledgers": g.st.ledgers,
            "distinct_end_states": g.digests.len(),
            "distinct_transitions": g.trans.len(),
            "transition_measure": "ordered pairs of consecutive steps, each classified by operation, request types, outcome, reason of rejection and whether a fault was injected",
            "worlds": g.variants.len(),
            "determinism_rechecks": g.rechecked,
            "determinism_mismatches": g.mismatch.len(),
            "harness_failures": died,
            "violations_of_other_properties_seen": g.others,
            "known_findings_replayed": known,
            "known_findings_met_in_the_search": g.known,
            "real_components": ["pool.wasm", "backstop.wasm", "emitter.wasm", "pool_factory.wasm (built from /repo's working tree)", "comet.wasm (the BLND:USDC liquidity pool /repo ships)", "soroban-env-host 20.3.0 (storage, auth, footprint, budget, wasm execution)"],
            "stub_components": ["token contracts (SEP-41 plus mint, with fault points)", "price oracles (SEP-40, with outage, staleness and publisher clock skew)", "ledger close, mempool and signatures (the simulator)"],
        },
        "assumptions": [
            "transactions are atomic and serial, as on the ledger: interleaving is the order in which the mempool delivers them",
            "tokens are well behaved: they move exactly the amount asked or fail",
            "an archived persistent entry is restored before use, an expired temporary entry is gone",
        ],
        "wall_s": wall,
        "violations": nviol,
    })
}

pub fn replay(path: &str, verify: bool) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let v: Value = serde_json::from_str(&s).expect("replay file");
    let prop = v["property"].as_str().unwrap().to_string();
    let sig = v["violation"].as_str().unwrap().to_string();
    let variant = v["variant"].as_u64().unwrap();
    let ops: Vec<Op> = v["ops"].as_array().unwrap().iter().map(Op::from_json).collect();
    let want = v["state_digest"].as_str().unwrap_or("").to_string();
    let path = path.to_string();
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let mut c = Cache { wasm: Wasm::load(), map: HashMap::new() };
            let (r, d) = execute(&mut c, variant, &ops, &prop, Some(&sig));
            match r {
                Some((k, x)) => {
                    println!("step {k} of {}: {} :: {}", ops.len(), x.sig, x.detail);
                    let same = format!("{d:016x}") == want && k == ops.len();
                    println!("state digest {d:016x} ({})", if same { "same as recorded" } else { "differs from the recording" });
                    println!("VIOLATION property={prop} replay={path}");
                    if verify && !same {
                        3
                    } else {
                        1
                    }
                }
                None => {
                    println!("not reproduced: the property held");
                    0
                }
            }
        })
        .unwrap()
        .join()
        .unwrap_or(2)
}

/// Exploration over all properties at once, for calibration.
pub fn calib(n: u64, from: u64, secs: f64, threads: usize) {
    let wasm = Wasm::load();
    let t0 = Instant::now();
    let next = AtomicU64::new(from);
    let sigs: Mutex<BTreeMap<String, (u64, String)>> = Default::default();
    let tot: Mutex<Agg> = Default::default();
    std::thread::scope(|sc| {
        for _ in 0..threads {
            let wasm = wasm.clone();
            let (next, sigs, tot) = (&next, &sigs, &tot);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, move || {
                    let mut c = Cache { wasm, map: HashMap::new() };
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= from + n || t0.elapsed().as_secs_f64() > secs {
                            break;
                        }
                        let prop = format!("C{:02}", 1 + i % 26);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(&mut c, &prop, 1, i)));
                        let o = match r {
                            Ok(o) => o,
                            Err(_) => {
                                sigs.lock().unwrap().entry("DIED".into()).or_insert((0, format!("{prop} {i}"))).0 += 1;
                                continue;
                            }
                        };
                        let mut s = sigs.lock().unwrap();
                        for v in o.viol.iter().take(3) {
                            let k: Vec<&str> = v.sig.split(':').take(if v.sig.starts_with("inv") { 2 } else { 9 }).collect();
                            let e = s.entry(k.join(":")).or_insert((0, format!("{prop} {i} {:?} {}", v.props, v.detail)));
                            e.0 += 1;
                        }
                        drop(s);
                        let mut g = tot.lock().unwrap();
                        g.st.merge(&o.st);
                        g.runs += 1;
                        for (k, n) in &o.known {
                            *g.known.entry(k.clone()).or_default() += n;
                            if std::env::var("CALIB_KNOWN").as_deref() == Ok(k) {
                                println!("known {k}: {prop} {i} x{n}");
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    let g = tot.into_inner().unwrap();
    println!("{:?} runs {} tx {} ok {} musts {}", t0.elapsed(), g.runs, g.st.tx, g.st.ok, g.st.musts);
    for (k, v) in &g.st.by {
        println!("  {k} {:?}", v);
    }
    println!("{:?}\n{:?}\n{:?}\n{:?}", g.st.faults, g.st.notes, g.st.rel, g.known);
    for (k, v) in sigs.into_inner().unwrap() {
        println!("{} {} :: {}", v.0, k, v.1.chars().take(600).collect::<String>());
    }
}

/// Print one run step by step.
pub fn trace(prop: &str, master: u64, idx: u64, last: usize) {
    let mut c = Cache { wasm: Wasm::load(), map: HashMap::new() };
    let o = one(&mut c, prop, master, idx);
    let mut w = c.get(o.variant);
    println!("variant {} shape {}", o.variant, genesis::shape(o.variant));
    let mut hit = None;
    let mut lines = vec![];
    for (i, op) in o.ops.iter().enumerate() {
        let n = w.viol.len();
        let so = w.step(op);
        lines.push(format!("{i} t={} l={} {} -> ok={} pred={} {:?} {:?} {:?}", w.led.ts, w.led.seq, op.to_json(), so.ok, so.predicted, so.why, so.err, so.ret.map(|r| format!("{r:?}").chars().take(80).collect::<String>())));
        for v in &w.viol[n..] {
            lines.push(format!("    VIOL {:?} {} {}", v.props, v.sig, v.detail));
            hit.get_or_insert(lines.len());
        }
        if hit.is_some() {
            break;
        }
    }
    let from = lines.len().saturating_sub(last);
    for l in &lines[from..] {
        println!("{l}");
    }
}
