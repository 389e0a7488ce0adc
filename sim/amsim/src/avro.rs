//! A decoder for Avro object container files, driven by the schema in the
//! file, written from the specification.
use serde_json::Value as J;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Av {
    Null,
    Bool(bool),
    Long(i64),
    Double(f64),
    Bytes(Vec<u8>),
    Str(String),
    Arr(Vec<Av>),
    Map(Vec<(String, Av)>),
    Rec(Vec<(String, Av)>),
}
impl Av {
    pub fn field(&self, name: &str) -> Option<&Av> {
        match self {
            Av::Rec(f) => f.iter().find(|(n, _)| n == name).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self, name: &str) -> String {
        match self.field(name) {
            Some(Av::Str(s)) => s.clone(),
            _ => String::new(),
        }
    }
    pub fn long(&self, name: &str) -> i64 {
        match self.field(name) {
            Some(Av::Long(i)) => *i,
            _ => i64::MIN,
        }
    }
}

#[derive(Debug, PartialEq)]
pub enum Bad {
    Eof,
    Wrong(String),
}
fn wrong<T>(m: impl Into<String>) -> Result<T, Bad> {
    Err(Bad::Wrong(m.into()))
}

struct Dec<'a> {
    b: &'a [u8],
    at: usize,
}
impl<'a> Dec<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], Bad> {
        if self.b.len() - self.at < n {
            return Err(Bad::Eof);
        }
        let r = &self.b[self.at..self.at + n];
        self.at += n;
        Ok(r)
    }
    fn long(&mut self) -> Result<i64, Bad> {
        let mut v: u64 = 0;
        let mut shift = 0;
        loop {
            let b = self.take(1)?[0];
            if shift >= 63 && b > 1 {
                return wrong("number too long");
            }
            v |= ((b & 0x7f) as u64) << shift;
            if b & 0x80 == 0 {
                break;
            }
            shift += 7;
        }
        Ok((v >> 1) as i64 ^ -((v & 1) as i64))
    }
    fn bytes(&mut self) -> Result<&'a [u8], Bad> {
        let n = self.long()?;
        if n < 0 {
            return wrong("negative length");
        }
        self.take(n as usize)
    }
    fn string(&mut self) -> Result<String, Bad> {
        match std::str::from_utf8(self.bytes()?) {
            Ok(s) => Ok(s.to_string()),
            Err(_) => wrong("string is not UTF-8"),
        }
    }
    /// array and map blocks
    fn blocks(&mut self, mut f: impl FnMut(&mut Self) -> Result<(), Bad>) -> Result<(), Bad> {
        loop {
            let mut n = self.long()?;
            if n == 0 {
                return Ok(());
            }
            if n < 0 {
                n = -n;
                self.long()?;
            }
            for _ in 0..n {
                f(self)?;
            }
        }
    }
}

#[derive(Clone)]
enum Ty {
    Null,
    Bool,
    Int,
    Long,
    Float,
    Double,
    Bytes,
    Str,
    Arr(Box<Ty>),
    Map(Box<Ty>),
    Union(Vec<Ty>),
    Fixed(usize),
    Enum(Vec<String>),
    Rec(Vec<(String, Ty)>),
}

fn ty(j: &J, named: &mut HashMap<String, Ty>) -> Result<Ty, String> {
    match j {
        J::String(s) => Ok(match s.as_str() {
            "null" => Ty::Null,
            "boolean" => Ty::Bool,
            "int" => Ty::Int,
            "long" => Ty::Long,
            "float" => Ty::Float,
            "double" => Ty::Double,
            "bytes" => Ty::Bytes,
            "string" => Ty::Str,
            other => return named.get(other).cloned().ok_or(format!("unknown type {other}")),
        }),
        J::Array(a) => Ok(Ty::Union(a.iter().map(|x| ty(x, named)).collect::<Result<_, _>>()?)),
        J::Object(o) => {
            let t = o.get("type").ok_or("type missing")?;
            let kind = match t {
                J::String(s) => s.as_str(),
                other => return ty(other, named),
            };
            let r = match kind {
                "array" => Ty::Arr(Box::new(ty(o.get("items").ok_or("items missing")?, named)?)),
                "map" => Ty::Map(Box::new(ty(o.get("values").ok_or("values missing")?, named)?)),
                "fixed" => Ty::Fixed(o.get("size").and_then(|x| x.as_u64()).ok_or("size missing")? as usize),
                "enum" => Ty::Enum(
                    o.get("symbols").and_then(|x| x.as_array()).ok_or("symbols missing")?.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect(),
                ),
                "record" => {
                    let mut fields = Vec::new();
                    for f in o.get("fields").and_then(|x| x.as_array()).ok_or("fields missing")? {
                        let name = f.get("name").and_then(|x| x.as_str()).ok_or("field name missing")?;
                        fields.push((name.to_string(), ty(f.get("type").ok_or("field type missing")?, named)?));
                    }
                    Ty::Rec(fields)
                }
                _ => return ty(t, named),
            };
            if let Some(n) = o.get("name").and_then(|x| x.as_str()) {
                named.insert(n.to_string(), r.clone());
            }
            Ok(r)
        }
        _ => Err("bad schema".into()),
    }
}

fn value(t: &Ty, d: &mut Dec) -> Result<Av, Bad> {
    Ok(match t {
        Ty::Null => Av::Null,
        Ty::Bool => match d.take(1)?[0] {
            0 => Av::Bool(false),
            1 => Av::Bool(true),
            _ => return wrong("bad boolean"),
        },
        Ty::Int => {
            let v = d.long()?;
            if i32::try_from(v).is_err() {
                return wrong("int out of range");
            }
            Av::Long(v)
        }
        Ty::Long => Av::Long(d.long()?),
        Ty::Float => Av::Double(f32::from_le_bytes(d.take(4)?.try_into().unwrap()) as f64),
        Ty::Double => Av::Double(f64::from_le_bytes(d.take(8)?.try_into().unwrap())),
        Ty::Bytes => Av::Bytes(d.bytes()?.to_vec()),
        Ty::Str => Av::Str(d.string()?),
        Ty::Fixed(n) => Av::Bytes(d.take(*n)?.to_vec()),
        Ty::Enum(s) => match s.get(d.long()? as usize) {
            Some(s) => Av::Str(s.clone()),
            None => return wrong("bad enum index"),
        },
        Ty::Union(ts) => match ts.get(d.long()? as usize) {
            Some(t) => value(t, d)?,
            None => return wrong("bad union index"),
        },
        Ty::Arr(t) => {
            let mut v = Vec::new();
            d.blocks(|d| {
                v.push(value(t, d)?);
                Ok(())
            })?;
            Av::Arr(v)
        }
        Ty::Map(t) => {
            let mut v = Vec::new();
            d.blocks(|d| {
                let k = d.string()?;
                v.push((k, value(t, d)?));
                Ok(())
            })?;
            Av::Map(v)
        }
        Ty::Rec(f) => {
            let mut v = Vec::new();
            for (n, t) in f {
                v.push((n.clone(), value(t, d)?));
            }
            Av::Rec(v)
        }
    })
}

#[derive(Default, Debug)]
pub struct File {
    pub records: Vec<Av>,
    /// records per complete block
    pub blocks: Vec<usize>,
    /// the container header itself is cut off
    pub header_torn: bool,
    /// bytes of an incomplete block at the end
    pub torn: usize,
    /// whole records, then the whole fields of the next one, found in the torn block
    pub torn_records: Vec<Av>,
    pub torn_fields: Vec<(String, Av)>,
}

pub fn decode(b: &[u8]) -> Result<File, String> {
    let mut f = File::default();
    let mut d = Dec { b, at: 0 };
    let mut head = || -> Result<(Vec<(String, Vec<u8>)>, Vec<u8>), Bad> {
        let m = d.take(4.min(d.b.len()))?;
        if m != &b"Obj\x01"[..m.len()] {
            return wrong("not an object container");
        }
        if m.len() < 4 {
            return Err(Bad::Eof);
        }
        let mut meta = Vec::new();
        d.blocks(|d| {
            let k = d.string()?;
            meta.push((k, d.bytes()?.to_vec()));
            Ok(())
        })?;
        Ok((meta, d.take(16)?.to_vec()))
    };
    let (meta, marker) = match head() {
        Ok(x) => x,
        Err(Bad::Eof) => {
            f.header_torn = true;
            f.torn = b.len();
            return Ok(f);
        }
        Err(Bad::Wrong(e)) => return Err(format!("header: {e}")),
    };
    let get = |n: &str| meta.iter().find(|(k, _)| k == n).map(|(_, v)| String::from_utf8_lossy(v).to_string());
    match get("avro.codec").as_deref() {
        None | Some("null") => {}
        Some(c) => return Err(format!("codec {c}")),
    }
    let schema: J = serde_json::from_str(&get("avro.schema").ok_or("no schema")?).map_err(|e| format!("schema: {e}"))?;
    let t = ty(&schema, &mut HashMap::new()).map_err(|e| format!("schema: {e}"))?;
    let mut at = d.at;
    while at < b.len() {
        let mut d = Dec { b, at };
        let start = at;
        let torn = |f: &mut File, d: &mut Dec, count: i64, limit: usize| -> Result<(), String> {
            f.torn = b.len() - start;
            let mut p = Dec { b: &b[d.at..limit.min(b.len())], at: 0 };
            for _ in 0..count {
                let before = p.at;
                match value(&t, &mut p) {
                    Ok(v) => f.torn_records.push(v),
                    Err(Bad::Eof) => {
                        if let Ty::Rec(fs) = &t {
                            p.at = before;
                            for (n, t) in fs {
                                match value(t, &mut p) {
                                    Ok(v) => f.torn_fields.push((n.clone(), v)),
                                    Err(Bad::Eof) => break,
                                    Err(Bad::Wrong(e)) => return Err(format!("torn block does not decode: {e}")),
                                }
                            }
                        }
                        return Ok(());
                    }
                    Err(Bad::Wrong(e)) => return Err(format!("torn block does not decode: {e}")),
                }
            }
            Ok(())
        };
        let (count, size) = match d.long().and_then(|c| d.long().map(|s| (c, s))) {
            Ok(x) => x,
            Err(Bad::Eof) => {
                f.torn = b.len() - start;
                return Ok(f);
            }
            Err(Bad::Wrong(e)) => return Err(format!("block {}: {e}", f.blocks.len())),
        };
        if count < 0 || size < 0 {
            return Err(format!("block {}: count {count}, size {size}", f.blocks.len()));
        }
        if count == 0 && size != 0 {
            return Err(format!("block {}: no records in {size} bytes", f.blocks.len()));
        }
        let end = d.at + size as usize;
        if b.len() < end + 16 {
            let rest = b.len().saturating_sub(end);
            if b.len() > end && b[end..] != marker[..rest] {
                return Err(format!("block {}: torn, and followed by other data", f.blocks.len()));
            }
            torn(&mut f, &mut d, count, end)?;
            return Ok(f);
        }
        if b[end..end + 16] != marker[..] {
            return Err(format!("block {} of {size} bytes at {start} is not followed by the sync marker", f.blocks.len()));
        }
        let mut p = Dec { b: &b[d.at..end], at: 0 };
        for k in 0..count {
            match value(&t, &mut p) {
                Ok(v) => f.records.push(v),
                Err(e) => return Err(format!("block {}, record {k}: {:?}", f.blocks.len(), e)),
            }
        }
        if p.at != p.b.len() {
            return Err(format!("block {}: {} bytes left after its {count} records", f.blocks.len(), p.b.len() - p.at));
        }
        f.blocks.push(count as usize);
        at = end + 16;
    }
    Ok(f)
}
