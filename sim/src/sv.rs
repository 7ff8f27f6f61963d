//! ScVal construction and decoding helpers; addresses are plain 32-byte contract ids.

use soroban_env_host::xdr::*;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Addr(pub [u8; 32]);

impl Addr {
    pub fn tag(s: &str) -> Addr {
        let mut b = [0u8; 32];
        b[0] = 0xA0;
        for (i, c) in s.bytes().enumerate().take(31) {
            b[i + 1] = c;
        }
        Addr(b)
    }
    pub fn name(&self) -> String {
        if self.0[0] == 0xA0 {
            let s: Vec<u8> = self.0[1..].iter().cloned().take_while(|c| *c != 0).collect();
            if let Ok(s) = String::from_utf8(s) {
                return s;
            }
        }
        hex(&self.0)
    }
    pub fn parse(s: &str) -> Option<Addr> {
        if s.len() == 64 && s.bytes().all(|c| c.is_ascii_hexdigit()) {
            let mut b = [0u8; 32];
            for i in 0..32 {
                b[i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()?;
            }
            return Some(Addr(b));
        }
        Some(Addr::tag(s))
    }
    pub fn sc(&self) -> ScAddress {
        ScAddress::Contract(Hash(self.0))
    }
}
impl std::fmt::Debug for Addr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.name())
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn sym(s: &str) -> ScVal {
    ScVal::Symbol(ScSymbol(s.try_into().unwrap()))
}
pub fn addr(a: &Addr) -> ScVal {
    ScVal::Address(a.sc())
}
pub fn i128v(x: i128) -> ScVal {
    ScVal::I128(Int128Parts {
        hi: (x >> 64) as i64,
        lo: x as u64,
    })
}
pub fn u32v(x: u32) -> ScVal {
    ScVal::U32(x)
}
pub fn u64v(x: u64) -> ScVal {
    ScVal::U64(x)
}
pub fn vecv(v: Vec<ScVal>) -> ScVal {
    ScVal::Vec(Some(ScVec(v.try_into().unwrap())))
}
pub fn strv(s: &str) -> ScVal {
    ScVal::String(ScString(s.try_into().unwrap()))
}
pub fn bytesv(b: &[u8]) -> ScVal {
    ScVal::Bytes(ScBytes(b.to_vec().try_into().unwrap()))
}
/// struct map: fields must be given; sorted here by symbol
pub fn structv(mut f: Vec<(&str, ScVal)>) -> ScVal {
    f.sort_by(|a, b| a.0.cmp(b.0));
    ScVal::Map(Some(ScMap(
        f.into_iter()
            .map(|(k, v)| ScMapEntry { key: sym(k), val: v })
            .collect::<Vec<_>>()
            .try_into()
            .unwrap(),
    )))
}
pub fn enumv(name: &str, payload: Vec<ScVal>) -> ScVal {
    let mut v = vec![sym(name)];
    v.extend(payload);
    vecv(v)
}

// ---- decode
pub fn as_i128(v: &ScVal) -> Option<i128> {
    match v {
        ScVal::I128(p) => Some(((p.hi as i128) << 64) | p.lo as i128),
        _ => None,
    }
}
pub fn as_u64(v: &ScVal) -> Option<u64> {
    match v {
        ScVal::U64(x) => Some(*x),
        ScVal::U32(x) => Some(*x as u64),
        _ => None,
    }
}
pub fn as_u32(v: &ScVal) -> Option<u32> {
    match v {
        ScVal::U32(x) => Some(*x),
        _ => None,
    }
}
pub fn as_addr(v: &ScVal) -> Option<Addr> {
    match v {
        ScVal::Address(ScAddress::Contract(h)) => Some(Addr(h.0)),
        _ => None,
    }
}
pub fn as_bool(v: &ScVal) -> Option<bool> {
    match v {
        ScVal::Bool(b) => Some(*b),
        _ => None,
    }
}
pub fn as_vec(v: &ScVal) -> Option<&[ScVal]> {
    match v {
        ScVal::Vec(Some(x)) => Some(x.as_slice()),
        _ => None,
    }
}
pub fn as_map(v: &ScVal) -> Option<&[ScMapEntry]> {
    match v {
        ScVal::Map(Some(x)) => Some(x.as_slice()),
        _ => None,
    }
}
pub fn as_sym(v: &ScVal) -> Option<String> {
    match v {
        ScVal::Symbol(s) => Some(String::from_utf8_lossy(s.as_slice()).to_string()),
        _ => None,
    }
}
pub fn field<'a>(v: &'a ScVal, name: &str) -> Option<&'a ScVal> {
    let m = as_map(v)?;
    m.iter()
        .find(|e| as_sym(&e.key).as_deref() == Some(name))
        .map(|e| &e.val)
}
pub fn fi(v: &ScVal, name: &str) -> i128 {
    field(v, name).and_then(as_i128).unwrap_or(0)
}
pub fn fu64(v: &ScVal, name: &str) -> u64 {
    field(v, name).and_then(as_u64).unwrap_or(0)
}
pub fn fu32(v: &ScVal, name: &str) -> u32 {
    field(v, name).and_then(as_u32).unwrap_or(0)
}

/// short rendering of a value, for reports
pub fn brief(v: &ScVal) -> String {
    match v {
        ScVal::Address(_) => as_addr(v).map(|a| a.name()).unwrap_or_default(),
        ScVal::Symbol(_) => as_sym(v).unwrap_or_default(),
        ScVal::I128(_) => as_i128(v).unwrap_or(0).to_string(),
        ScVal::U32(x) => x.to_string(),
        ScVal::U64(x) => x.to_string(),
        ScVal::Void => "()".into(),
        ScVal::Vec(Some(x)) => format!("({})", x.iter().map(brief).collect::<Vec<_>>().join(", ")),
        ScVal::Map(Some(x)) => format!("{{{}}}", x.iter().map(|e| format!("{}: {}", brief(&e.key), brief(&e.val))).collect::<Vec<_>>().join(", ")),
        x => format!("{:?}", x),
    }
}
