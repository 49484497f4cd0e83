//! A small MessagePack codec over serde_json-like values plus byte strings.
#[derive(Clone, Debug, PartialEq)]
pub enum V { Nil, Bool(bool), Int(i64), UInt(u64), F(f64), S(String), B(Vec<u8>), A(Vec<V>), M(Vec<(V, V)>) }

impl V {
    pub fn get(&self, k: &str) -> Option<&V> {
        if let V::M(m) = self { m.iter().find(|(a, _)| matches!(a, V::S(s) if s == k)).map(|x| &x.1) } else { None }
    }
    pub fn s(&self, k: &str) -> &str { match self.get(k) { Some(V::S(s)) => s, _ => "" } }
    pub fn int(&self) -> Option<i64> { match self { V::Int(i) => Some(*i), V::UInt(u) => Some(*u as i64), _ => None } }
    pub fn bytes(&self) -> Option<&[u8]> { match self { V::B(b) => Some(b), _ => None } }
    /// As JSON (byte strings as {"$b": [..]}).
    pub fn json(&self) -> serde_json::Value {
        use serde_json::Value as J;
        match self {
            V::Nil => J::Null,
            V::Bool(b) => J::Bool(*b),
            V::Int(i) => J::from(*i),
            V::UInt(u) => J::from(*u),
            V::F(f) => J::from(*f),
            V::S(s) => J::from(s.clone()),
            V::B(b) => serde_json::json!({ "$b": b }),
            V::A(a) => J::Array(a.iter().map(|x| x.json()).collect()),
            V::M(m) => J::Object(m.iter().map(|(k, v)| (match k { V::S(s) => s.clone(), o => format!("{:?}", o) }, v.json())).collect()),
        }
    }
    pub fn from_json(j: &serde_json::Value) -> V {
        use serde_json::Value as J;
        match j {
            J::Null => V::Nil,
            J::Bool(b) => V::Bool(*b),
            J::Number(n) => if let Some(i) = n.as_i64() { V::Int(i) } else if let Some(u) = n.as_u64() { V::UInt(u) } else { V::F(n.as_f64().unwrap()) },
            J::String(s) => V::S(s.clone()),
            J::Array(a) => V::A(a.iter().map(V::from_json).collect()),
            J::Object(o) => V::M(o.iter().map(|(k, v)| (V::S(k.clone()), V::from_json(v))).collect()),
        }
    }
}

pub fn encode(v: &V) -> Vec<u8> { let mut o = Vec::new(); enc(v, &mut o); o }
fn enc(v: &V, o: &mut Vec<u8>) {
    match v {
        V::Nil => o.push(0xc0),
        V::Bool(b) => o.push(if *b { 0xc3 } else { 0xc2 }),
        V::Int(i) if *i >= 0 => enc(&V::UInt(*i as u64), o),
        V::Int(i) if *i >= -32 => o.push(*i as i8 as u8),
        V::Int(i) => { o.push(0xd3); o.extend(i.to_be_bytes()); }
        V::UInt(u) if *u < 128 => o.push(*u as u8),
        V::UInt(u) if *u < 65536 => { o.push(0xcd); o.extend((*u as u16).to_be_bytes()); }
        V::UInt(u) => { o.push(0xcf); o.extend(u.to_be_bytes()); }
        V::F(f) => { o.push(0xcb); o.extend(f.to_be_bytes()); }
        V::S(s) => {
            let n = s.len();
            if n < 32 { o.push(0xa0 | n as u8) } else if n < 65536 { o.push(0xda); o.extend((n as u16).to_be_bytes()) } else { o.push(0xdb); o.extend((n as u32).to_be_bytes()) }
            o.extend(s.as_bytes());
        }
        V::B(b) => { o.push(0xc6); o.extend((b.len() as u32).to_be_bytes()); o.extend(b); }
        V::A(a) => {
            if a.len() < 16 { o.push(0x90 | a.len() as u8) } else { o.push(0xdc); o.extend((a.len() as u16).to_be_bytes()) }
            for x in a { enc(x, o) }
        }
        V::M(m) => {
            if m.len() < 16 { o.push(0x80 | m.len() as u8) } else { o.push(0xde); o.extend((m.len() as u16).to_be_bytes()) }
            for (k, x) in m { enc(k, o); enc(x, o) }
        }
    }
}

pub fn decode(b: &[u8]) -> Result<V, String> {
    let mut p = 0;
    let v = dec(b, &mut p, 0)?;
    if p != b.len() { return Err(format!("trailing bytes after message: {} of {}", p, b.len())); }
    Ok(v)
}
fn take<'a>(b: &'a [u8], p: &mut usize, n: usize) -> Result<&'a [u8], String> {
    if *p + n > b.len() { return Err("truncated".into()); }
    let r = &b[*p..*p + n]; *p += n; Ok(r)
}
fn be(b: &[u8]) -> u64 { b.iter().fold(0, |a, x| a << 8 | *x as u64) }
fn dec(b: &[u8], p: &mut usize, d: u32) -> Result<V, String> {
    if d > 64 { return Err("deep".into()); }
    let t = take(b, p, 1)?[0];
    let n = |k: usize, p: &mut usize| -> Result<u64, String> { Ok(be(take(b, p, k)?)) };
    let string = |k: usize, p: &mut usize| -> Result<V, String> { String::from_utf8(take(b, p, k)?.to_vec()).map(V::S).map_err(|e| e.to_string()) };
    let arr = |k: usize, p: &mut usize| -> Result<V, String> { let mut a = Vec::new(); for _ in 0..k { a.push(dec(b, p, d + 1)?) } Ok(V::A(a)) };
    let map = |k: usize, p: &mut usize| -> Result<V, String> { let mut a = Vec::new(); for _ in 0..k { let x = dec(b, p, d + 1)?; a.push((x, dec(b, p, d + 1)?)) } Ok(V::M(a)) };
    Ok(match t {
        0..=0x7f => V::Int(t as i64),
        0x80..=0x8f => map((t & 15) as usize, p)?,
        0x90..=0x9f => arr((t & 15) as usize, p)?,
        0xa0..=0xbf => string((t & 31) as usize, p)?,
        0xc0 => V::Nil,
        0xc2 => V::Bool(false),
        0xc3 => V::Bool(true),
        0xc4 => { let k = n(1, p)? as usize; V::B(take(b, p, k)?.to_vec()) }
        0xc5 => { let k = n(2, p)? as usize; V::B(take(b, p, k)?.to_vec()) }
        0xc6 => { let k = n(4, p)? as usize; V::B(take(b, p, k)?.to_vec()) }
        0xca => V::F(f32::from_bits(n(4, p)? as u32) as f64),
        0xcb => V::F(f64::from_bits(n(8, p)?)),
        0xcc => V::Int(n(1, p)? as i64),
        0xcd => V::Int(n(2, p)? as i64),
        0xce => V::Int(n(4, p)? as i64),
        0xcf => { let u = n(8, p)?; if u <= i64::MAX as u64 { V::Int(u as i64) } else { V::UInt(u) } }
        0xd0 => V::Int(n(1, p)? as i8 as i64),
        0xd1 => V::Int(n(2, p)? as i16 as i64),
        0xd2 => V::Int(n(4, p)? as i32 as i64),
        0xd3 => V::Int(n(8, p)? as i64),
        0xd9 => { let k = n(1, p)? as usize; string(k, p)? }
        0xda => { let k = n(2, p)? as usize; string(k, p)? }
        0xdb => { let k = n(4, p)? as usize; string(k, p)? }
        0xdc => { let k = n(2, p)? as usize; arr(k, p)? }
        0xdd => { let k = n(4, p)? as usize; arr(k, p)? }
        0xde => { let k = n(2, p)? as usize; map(k, p)? }
        0xdf => { let k = n(4, p)? as usize; map(k, p)? }
        0xe0..=0xff => V::Int(t as i8 as i64),
        _ => return Err(format!("type {:#x}", t)),
    })
}
pub fn map(m: &[(&str, V)]) -> V { V::M(m.iter().map(|(k, v)| (V::S(k.to_string()), v.clone())).collect()) }
