//! The simulated ledger and transaction executor. Every transaction runs on a fresh soroban Host over
//! the durable ledger map; only the final state of a successful, fully authorised transaction is applied.
//! So a host crash/abort at any point is modelled exactly: nothing but the ledger survives.

use crate::natives::{NativeEnv, Natives};
use crate::sv::*;
use soroban_env_host::budget::Budget;
use soroban_env_host::storage::{EntryWithLiveUntil, SnapshotSource, Storage};
use soroban_env_host::xdr::*;
use soroban_env_host::{Host, HostError, LedgerInfo};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PROTOCOL: u32 = 20;
pub const MIN_PERSISTENT: u32 = 2_073_600;
pub const MIN_TEMP: u32 = 17_280;
pub const MAX_TTL: u32 = 3_110_400;

#[derive(Clone)]
pub struct Entry {
    pub le: Rc<LedgerEntry>,
    pub live: Option<u32>,
}

pub type LMap = BTreeMap<Rc<LedgerKey>, Entry>;

#[derive(Clone)]
pub struct Ledger {
    pub map: LMap,
    pub seq: u32,
    pub ts: u64,
    /// contracts whose entries never expire (harness-owned stand-ins, comet)
    pub immortal: Vec<Addr>,
}

struct Snap {
    map: RefCell<LMap>,
    seq: u32,
    loaded_archived: RefCell<Vec<Rc<LedgerKey>>>,
}

impl SnapshotSource for Snap {
    fn get(&self, key: &Rc<LedgerKey>) -> Result<EntryWithLiveUntil, HostError> {
        let m = self.map.borrow();
        match m.get(key) {
            Some(e) if self.visible(key, e) => Ok((e.le.clone(), self.live(key, e))),
            _ => Err(soroban_env_host::Error::from_type_and_code(
                ScErrorType::Storage,
                ScErrorCode::MissingValue,
            )
            .into()),
        }
    }
    fn has(&self, key: &Rc<LedgerKey>) -> Result<bool, HostError> {
        let m = self.map.borrow();
        Ok(matches!(m.get(key), Some(e) if self.visible(key, e)))
    }
}

impl Snap {
    /// Expired temporary entries are gone. Expired persistent entries are archived: the transaction's
    /// footprint restores them first (as a wallet does through RestoreFootprint), with the minimum TTL.
    fn visible(&self, key: &LedgerKey, e: &Entry) -> bool {
        if let LedgerKey::ContractData(d) = key {
            if d.durability == ContractDataDurability::Temporary {
                return e.live.map(|l| l >= self.seq).unwrap_or(true);
            }
        }
        true
    }
    fn live(&self, key: &Rc<LedgerKey>, e: &Entry) -> Option<u32> {
        match e.live {
            Some(l) if l < self.seq => {
                self.loaded_archived.borrow_mut().push(key.clone());
                Some(self.seq + MIN_PERSISTENT - 1)
            }
            x => x,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    /// error raised by a contract: Error(Contract, code)
    Contract(u32),
    /// not all required authorisations were present
    Auth,
    Budget,
    /// host error (type, code), including wasm traps
    Host(String),
}

pub struct TxOut {
    pub res: Result<ScVal, Fail>,
    /// addresses whose authorisation the call required
    pub auths: Vec<Addr>,
    pub cpu: u64,
    pub writes: usize,
    /// entries written: key, live-until, whether the value itself was written (not only its lifetime)
    pub changed: Vec<(Rc<LedgerKey>, Option<u32>, bool)>,
    pub archived_reads: Vec<Rc<LedgerKey>>,
    /// invocations of natives, in order (token transfers etc.)
    pub trace: Vec<crate::natives::Call>,
    pub fault_fired: bool,
    /// contract events of a settled call, in order
    pub events: Vec<Ev>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub from: Addr,
    pub topics: Vec<ScVal>,
    pub data: ScVal,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub to: Addr,
    pub func: String,
    pub args: Vec<ScVal>,
}

fn bad_err(e: &HostError) -> Fail {
    let err = e.error;
    if err.is_type(ScErrorType::Contract) {
        return Fail::Contract(err.get_code());
    }
    if err.is_type(ScErrorType::Budget) {
        return Fail::Budget;
    }
    if err.is_type(ScErrorType::Auth) {
        return Fail::Auth;
    }
    Fail::Host(format!("{:?}", err))
}

pub fn contract_data_key(a: &Addr, key: ScVal, temp: bool) -> LedgerKey {
    LedgerKey::ContractData(LedgerKeyContractData {
        contract: a.sc(),
        key,
        durability: if temp {
            ContractDataDurability::Temporary
        } else {
            ContractDataDurability::Persistent
        },
    })
}

impl Ledger {
    pub fn new(seq: u32, ts: u64) -> Self {
        Ledger {
            map: BTreeMap::new(),
            seq,
            ts,
            immortal: vec![],
        }
    }

    pub fn info(&self) -> LedgerInfo {
        LedgerInfo {
            protocol_version: PROTOCOL,
            sequence_number: self.seq,
            timestamp: self.ts,
            network_id: [7u8; 32],
            base_reserve: 5_000_000,
            min_temp_entry_ttl: MIN_TEMP,
            min_persistent_entry_ttl: MIN_PERSISTENT,
            max_entry_ttl: MAX_TTL,
        }
    }

    fn put(&mut self, key: LedgerKey, data: LedgerEntryData, live: Option<u32>) {
        self.map.insert(
            Rc::new(key),
            Entry {
                le: Rc::new(LedgerEntry {
                    last_modified_ledger_seq: 0,
                    data,
                    ext: LedgerEntryExt::V0,
                }),
                live,
            },
        );
    }

    pub fn install_wasm(&mut self, hash: [u8; 32], code: &[u8]) {
        self.put(
            LedgerKey::ContractCode(LedgerKeyContractCode { hash: Hash(hash) }),
            LedgerEntryData::ContractCode(ContractCodeEntry {
                ext: ExtensionPoint::V0,
                hash: Hash(hash),
                code: code.to_vec().try_into().unwrap(),
            }),
            Some(u32::MAX),
        );
    }

    pub fn install_contract(&mut self, a: &Addr, hash: [u8; 32]) {
        let live = self.seq + MIN_PERSISTENT - 1;
        self.put(
            contract_data_key(a, ScVal::LedgerKeyContractInstance, false),
            LedgerEntryData::ContractData(ContractDataEntry {
                ext: ExtensionPoint::V0,
                contract: a.sc(),
                key: ScVal::LedgerKeyContractInstance,
                durability: ContractDataDurability::Persistent,
                val: ScVal::ContractInstance(ScContractInstance {
                    executable: ContractExecutable::Wasm(Hash(hash)),
                    storage: None,
                }),
            }),
            Some(live),
        );
    }

    /// tokens arriving from outside the system
    pub fn put_bal(&mut self, token: &Addr, who: &Addr, x: i128) {
        let key = crate::natives::bal_key(who);
        self.put(
            contract_data_key(token, key.clone(), false),
            LedgerEntryData::ContractData(ContractDataEntry {
                ext: ExtensionPoint::V0,
                contract: token.sc(),
                key,
                durability: ContractDataDurability::Persistent,
                val: i128v(x),
            }),
            Some(u32::MAX),
        );
    }

    /// Raw visible value of a contract data entry.
    pub fn data(&self, a: &Addr, key: ScVal, temp: bool) -> Option<&ScVal> {
        let k = contract_data_key(a, key, temp);
        let e = self.map.get(&k)?;
        if temp && e.live.map(|l| l < self.seq).unwrap_or(false) {
            return None;
        }
        match &e.le.data {
            LedgerEntryData::ContractData(d) => Some(&d.val),
            _ => None,
        }
    }

    pub fn instance_map(&self, a: &Addr) -> Vec<(ScVal, ScVal)> {
        match self.data(a, ScVal::LedgerKeyContractInstance, false) {
            Some(ScVal::ContractInstance(i)) => match &i.storage {
                Some(m) => m.iter().map(|e| (e.key.clone(), e.val.clone())).collect(),
                None => vec![],
            },
            _ => vec![],
        }
    }

    pub fn instance_get(&self, a: &Addr, key: &str) -> Option<ScVal> {
        self.instance_map(a)
            .into_iter()
            .find(|(k, _)| as_sym(k).as_deref() == Some(key))
            .map(|(_, v)| v)
    }

    /// Run one transaction. `signers` authorise it; `cpu_limit` injects exhaustion of the resource budget.
    pub fn run(
        &mut self,
        call: &Call,
        signers: &[Addr],
        natives: &Natives,
        env: &Rc<RefCell<NativeEnv>>,
        cpu_limit: Option<u64>,
        commit: bool,
    ) -> TxOut {
        let map = std::mem::take(&mut self.map);
        let snap = Rc::new(Snap {
            map: RefCell::new(map),
            seq: self.seq,
            loaded_archived: RefCell::new(vec![]),
        });
        let (res, auths, cpu, changes, events) =
            self.run_inner(call, signers, natives, env, cpu_limit, snap.clone());
        let snap = Rc::try_unwrap(snap).ok().expect("snapshot still shared");
        self.map = snap.map.into_inner();
        let archived_reads = snap.loaded_archived.into_inner();
        let mut writes = 0;
        let mut changed = vec![];
        if res.is_ok() && commit {
            for (k, v) in changes {
                match v {
                    Some((le, live)) => {
                        let (same, same_val) = match self.map.get(&k) {
                            Some(o) => (
                                Rc::ptr_eq(&o.le, &le) && o.live == live,
                                Rc::ptr_eq(&o.le, &le),
                            ),
                            None => (false, false),
                        };
                        if same {
                            continue;
                        }
                        changed.push((k.clone(), live, !same_val));
                        let live = if self.is_immortal(&k) {
                            Some(u32::MAX)
                        } else {
                            live
                        };
                        writes += 1;
                        self.map.insert(k, Entry { le, live });
                    }
                    None => {
                        if self.map.remove(&k).is_some() {
                            writes += 1;
                        }
                    }
                }
            }
        }
        let mut e = env.borrow_mut();
        let trace = std::mem::take(&mut e.trace);
        let fault_fired = e.fault_fired;
        TxOut {
            res,
            auths,
            cpu,
            writes,
            changed,
            archived_reads,
            trace,
            fault_fired,
            events,
        }
    }

    fn is_immortal(&self, k: &LedgerKey) -> bool {
        match k {
            LedgerKey::ContractData(d) => match &d.contract {
                ScAddress::Contract(h) => self.immortal.iter().any(|a| a.0 == h.0),
                _ => false,
            },
            _ => true,
        }
    }

    #[allow(clippy::type_complexity)]
    fn run_inner(
        &self,
        call: &Call,
        signers: &[Addr],
        natives: &Natives,
        env: &Rc<RefCell<NativeEnv>>,
        cpu_limit: Option<u64>,
        snap: Rc<Snap>,
    ) -> (
        Result<ScVal, Fail>,
        Vec<Addr>,
        u64,
        Vec<(Rc<LedgerKey>, Option<EntryWithLiveUntil>)>,
        Vec<Ev>,
    ) {
        let budget = Budget::default();
        budget.reset_unlimited().unwrap();
        let storage = Storage::with_recording_footprint(snap);
        let host = Host::with_storage_and_budget(storage, budget.clone());
        host.set_source_account(AccountId(PublicKey::PublicKeyTypeEd25519(Uint256([9u8; 32]))))
            .unwrap();
        host.set_ledger_info(self.info()).unwrap();
        host.set_base_prng_seed([5u8; 32]).unwrap();
        host.switch_to_recording_auth(true).unwrap();
        for (a, f) in natives.list.iter() {
            let obj = host.add_addr(a);
            host.register_test_contract(obj, f.clone()).unwrap();
        }
        {
            let mut e = env.borrow_mut();
            e.begin();
        }
        if let Some(c) = cpu_limit {
            budget.reset_cpu_limit(c).unwrap();
        } else {
            budget.reset_unlimited().unwrap();
        }
        let hf = HostFunction::InvokeContract(InvokeContractArgs {
            contract_address: call.to.sc(),
            function_name: ScSymbol(call.func.as_str().try_into().unwrap()),
            args: call.args.clone().try_into().unwrap(),
        });
        let r = host.invoke_function(hf);
        let cpu = budget.get_cpu_insns_consumed().unwrap_or(0);
        let mut res = match r {
            Ok(v) => Ok(v),
            Err(e) => Err(bad_err(&e)),
        };
        if let Ok(ScVal::Error(_)) = &res {
            res = Err(Fail::Host("error value".into()));
        }
        let mut auths = vec![];
        let mut changes = vec![];
        if res.is_ok() {
            budget.reset_unlimited().unwrap();
            match host.get_recorded_auth_payloads() {
                Ok(ps) => {
                    for p in ps {
                        if let Some(ScAddress::Contract(h)) = p.address {
                            let a = Addr(h.0);
                            if !auths.contains(&a) {
                                auths.push(a);
                            }
                        }
                    }
                }
                Err(e) => res = Err(bad_err(&e)),
            }
            if auths.iter().any(|a| !signers.contains(a)) {
                res = Err(Fail::Auth);
            }
        }
        if res.is_ok() {
            host.with_mut_storage(|s| {
                for (k, v) in s.map.iter(&budget)? {
                    match &**k {
                        LedgerKey::ContractData(d) => {
                            if matches!(d.key, ScVal::LedgerKeyNonce(_)) {
                                continue;
                            }
                            // instances of natives are re-created per host
                            if matches!(d.key, ScVal::LedgerKeyContractInstance) {
                                if let ScAddress::Contract(h) = &d.contract {
                                    if natives.list.iter().any(|(a, _)| a.0 == h.0) {
                                        continue;
                                    }
                                }
                            }
                        }
                        LedgerKey::ContractCode(_) => continue,
                        _ => continue,
                    }
                    changes.push((k.clone(), v.clone()));
                }
                Ok(())
            })
            .unwrap();
        }
        let mut events = vec![];
        if res.is_ok() {
            for x in host.get_events().map(|e| e.0).unwrap_or_default() {
                let c = match (&x.event.type_, &x.event.contract_id) {
                    (ContractEventType::Contract, Some(h)) if !x.failed_call => Addr(h.0),
                    _ => continue,
                };
                let ContractEventBody::V0(b) = x.event.body;
                events.push(Ev { from: c, topics: b.topics.to_vec(), data: b.data });
            }
        }
        (res, auths, cpu, changes, events)
    }
}

pub trait HostExt {
    fn add_addr(&self, a: &Addr) -> soroban_env_host::AddressObject;
}
impl HostExt for Host {
    fn add_addr(&self, a: &Addr) -> soroban_env_host::AddressObject {
        use soroban_env_host::TryFromVal;
        let v = soroban_env_host::Val::try_from_val(self, &addr(a)).unwrap();
        v.try_into().unwrap()
    }
}
