//! The reference model: a small subset of the language (programs the
//! generators write), its printed form, and its evaluation.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Val {
    Null,
    Int(i64),
    Flt(f64),
    Str(String),
    Bool(bool),
    Arr(Vec<Val>),
    Map(BTreeMap<String, Val>),
}
impl fmt::Display for Val {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Val::Null => write!(f, "null"),
            Val::Int(i) => write!(f, "{}", i),
            Val::Flt(i) => write!(f, "{}", i),
            Val::Str(s) => write!(f, "{}", s),
            Val::Bool(b) => write!(f, "{}", b),
            // the generators never print these
            Val::Arr(_) => write!(f, "<array>"),
            Val::Map(_) => write!(f, "<map>"),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum E {
    I(i64),
    /// never a whole number
    D(f64),
    B(bool),
    S(String),
    V(String),
    F(Box<E>, String),
    Ix(Box<E>, Box<E>),
    Bin(String, Box<E>, Box<E>),
    Cmp(String, Box<E>, Box<E>),
    Paren(Box<E>),
    Len(Box<E>),
    Neg(Box<E>),
    Not(Box<E>),
    /// && and ||
    Log(String, Box<E>, Box<E>),
}
impl E {
    pub fn v(n: &str) -> E {
        E::V(n.into())
    }
    pub fn f(self, n: &str) -> E {
        E::F(Box::new(self), n.into())
    }
    pub fn ix(self, e: E) -> E {
        E::Ix(Box::new(self), Box::new(e))
    }
    pub fn bin(op: &str, a: E, b: E) -> E {
        E::Bin(op.into(), Box::new(a), Box::new(b))
    }
    pub fn cmp(op: &str, a: E, b: E) -> E {
        E::Cmp(op.into(), Box::new(a), Box::new(b))
    }
}
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            E::I(i) => write!(f, "{}", i),
            E::D(i) => write!(f, "{}", i),
            E::B(i) => write!(f, "{}", i),
            E::S(s) => write!(f, "\"{}\"", s),
            E::V(v) => write!(f, "{}", v),
            E::F(e, n) => write!(f, "{}.{}", e, n),
            E::Ix(e, i) => write!(f, "{}[{}]", e, i),
            E::Bin(op, a, b) | E::Cmp(op, a, b) | E::Log(op, a, b) => write!(f, "{} {} {}", a, op, b),
            E::Paren(e) => write!(f, "({})", e),
            E::Len(e) => write!(f, "length({})", e),
            E::Neg(e) => write!(f, "-{}", e),
            E::Not(e) => write!(f, "!{}", e),
        }
    }
}

pub type Env = BTreeMap<String, Val>;

pub fn eval(e: &E, env: &Env) -> Result<Val, String> {
    Ok(match e {
        E::I(i) => Val::Int(*i),
        E::D(i) => Val::Flt(*i),
        E::B(i) => Val::Bool(*i),
        E::S(s) => Val::Str(s.clone()),
        E::V(v) => env.get(v).cloned().ok_or_else(|| format!("ident:{} not found", v))?,
        E::F(e, n) => match eval(e, env)? {
            Val::Map(m) => m.get(n).cloned().unwrap_or(Val::Null),
            _ => return Err("field".into()),
        },
        E::Ix(e, i) => match (eval(e, env)?, eval(i, env)?) {
            (Val::Arr(a), Val::Int(i)) => a.get(i as usize).cloned().unwrap_or(Val::Null),
            (Val::Map(m), k) => m.get(&k.to_string()).cloned().unwrap_or(Val::Null),
            _ => return Err("index".into()),
        },
        E::Paren(e) => eval(e, env)?,
        E::Len(e) => match eval(e, env)? {
            Val::Str(s) => Val::Int(s.len() as i64),
            Val::Arr(a) => Val::Int(a.len() as i64),
            Val::Map(m) => Val::Int(m.len() as i64),
            _ => return Err("length".into()),
        },
        E::Neg(e) => match eval(e, env)? {
            Val::Int(i) => Val::Int(i.checked_neg().ok_or("overflow")?),
            Val::Flt(i) => Val::Flt(-i),
            _ => return Err("neg".into()),
        },
        E::Not(e) => match eval(e, env)? {
            Val::Int(i) => Val::Int(!i),
            v => Val::Bool(matches!(v, Val::Null | Val::Bool(false))),
        },
        E::Log(op, a, b) => {
            let a = eval(a, env)?;
            let no = matches!(a, Val::Null | Val::Bool(false));
            if no == (op == "||") {
                eval(b, env)?
            } else {
                a
            }
        }
        E::Bin(op, a, b) => match (op.as_str(), eval(a, env)?, eval(b, env)?) {
            ("+", Val::Int(a), Val::Int(b)) => Val::Int(a.checked_add(b).ok_or("overflow")?),
            ("-", Val::Int(a), Val::Int(b)) => Val::Int(a.checked_sub(b).ok_or("overflow")?),
            ("*", Val::Int(a), Val::Int(b)) => Val::Int(a.checked_mul(b).ok_or("overflow")?),
            ("/", Val::Int(a), Val::Int(b)) => Val::Int(a.checked_div(b).ok_or("division")?),
            ("%", Val::Int(a), Val::Int(b)) => Val::Int(a.checked_rem(b).ok_or("division")?),
            ("+", Val::Str(a), Val::Str(b)) => Val::Str(a + &b),
            ("&", Val::Int(a), Val::Int(b)) => Val::Int(a & b),
            ("|", Val::Int(a), Val::Int(b)) => Val::Int(a | b),
            ("^", Val::Int(a), Val::Int(b)) => Val::Int(a ^ b),
            ("<<", Val::Int(a), Val::Int(b)) => Val::Int(u32::try_from(b).ok().and_then(|b| a.checked_shl(b)).ok_or("overflow")?),
            (">>", Val::Int(a), Val::Int(b)) => Val::Int(u32::try_from(b).ok().and_then(|b| a.checked_shr(b)).ok_or("overflow")?),
            (op @ ("+" | "-" | "*" | "/" | "%"), a @ (Val::Int(_) | Val::Flt(_)), b @ (Val::Int(_) | Val::Flt(_))) => {
                let (a, b) = (number(&a), number(&b));
                Val::Flt(match op {
                    "+" => a + b,
                    "-" => a - b,
                    "*" => a * b,
                    "/" => a / b,
                    _ => a % b,
                })
            }
            _ => return Err("type mismatch".into()),
        },
        E::Cmp(op, a, b) => Val::Bool(compare(op, &eval(a, env)?, &eval(b, env)?)),
    })
}

fn number(v: &Val) -> f64 {
    match v {
        Val::Int(i) => *i as f64,
        Val::Flt(f) => *f,
        _ => f64::NAN,
    }
}

pub fn compare(op: &str, a: &Val, b: &Val) -> bool {
    let ord = match (a, b) {
        (Val::Int(a), Val::Int(b)) => a.partial_cmp(b),
        (Val::Str(a), Val::Str(b)) => a.partial_cmp(b),
        (Val::Int(_) | Val::Flt(_), Val::Int(_) | Val::Flt(_)) => number(a).partial_cmp(&number(b)),
        _ => None,
    };
    use std::cmp::Ordering::*;
    match op {
        "==" => a == b,
        "!=" => a != b,
        "<" => ord == Some(Less),
        ">" => ord == Some(Greater),
        "<=" => matches!(ord, Some(Less | Equal)),
        _ => matches!(ord, Some(Greater | Equal)),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Let(String, E),
    /// `let var = request();` or a plain call
    Call(String, Option<String>),
    If(E, Vec<Op>, Vec<Op>),
    /// println with a format text and arguments
    Print(String, Vec<E>),
    /// an expression that fails
    Fail(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Body {
    None,
    Text(String),
    Form(Vec<(String, String)>),
    /// name, value; a value starting with @ names a file (relative)
    Multi(Vec<(String, String)>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Req {
    pub name: String,
    pub method: String,
    pub scheme: String,
    pub host: String,
    pub port: Option<u16>,
    pub path: String,
    pub version: Option<String>,
    pub headers: Vec<(String, String)>,
    pub body: Body,
    pub asserts: Vec<(E, String, E)>,
    /// compare-free assertions, which are not evaluated
    pub junk: Vec<String>,
    /// how the text is laid out: 1 no blank behind a header's colon, 2 many, 3 the head is indented
    #[serde(default)]
    pub style: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Test {
    pub name: String,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Prog {
    pub top: Vec<Op>,
    pub requests: Vec<Req>,
    pub tests: Vec<Test>,
}

impl Req {
    pub fn url(&self) -> String {
        match self.port {
            Some(p) => format!("{}://{}:{}{}", self.scheme, self.host, p, self.path),
            None => format!("{}://{}{}", self.scheme, self.host, self.path),
        }
    }
    pub fn render(&self) -> String {
        let mut t = format!("request {}`\n{} {}", self.name, self.method, self.url());
        if let Some(v) = &self.version {
            t.push_str(&format!(" {}", v));
        }
        t.push('\n');
        for (a, b) in &self.headers {
            t.push_str(&match self.style {
                1 => format!("{}:{}\n", a, b),
                2 => format!("{} :\t {}  \n", a, b),
                3 => format!("\t  {}: {}\n", a, b),
                _ => format!("{}: {}\n", a, b),
            });
        }
        match &self.body {
            Body::None => {}
            Body::Text(b) => t.push_str(&format!("\n{}\n", b)),
            Body::Form(f) | Body::Multi(f) => {
                t.push('\n');
                for (a, b) in f {
                    t.push_str(&format!("{}: {}\n", a, b));
                }
            }
        }
        t.push('`');
        let mut list: Vec<String> = self.asserts.iter().map(|(a, op, b)| format!("{} {} {}", a, op, b)).collect();
        for (i, j) in self.junk.iter().enumerate() {
            list.insert((i * 2 + 1).min(list.len()), j.clone());
        }
        if !list.is_empty() {
            t.push_str(&format!("[{}]", list.join(", ")));
        }
        t.push('\n');
        t
    }
}

fn render_ops(ops: &[Op], ind: usize, out: &mut String) {
    let pad = " ".repeat(ind);
    for op in ops {
        match op {
            Op::Let(v, e) => out.push_str(&format!("{}let {} = {};\n", pad, v, e)),
            Op::Call(r, Some(v)) => out.push_str(&format!("{}let {} = {}();\n", pad, v, r)),
            Op::Call(r, None) => out.push_str(&format!("{}{}();\n", pad, r)),
            Op::If(c, a, b) => {
                out.push_str(&format!("{}if ({}) {{\n", pad, c));
                render_ops(a, ind + 2, out);
                if b.is_empty() {
                    out.push_str(&format!("{}}};\n", pad));
                } else {
                    out.push_str(&format!("{}}} else {{\n", pad));
                    render_ops(b, ind + 2, out);
                    out.push_str(&format!("{}}};\n", pad));
                }
            }
            Op::Print(f, args) => {
                let args: Vec<String> = args.iter().map(|e| format!(", {}", e)).collect();
                out.push_str(&format!("{}println(\"{}\"{});\n", pad, f, args.concat()));
            }
            Op::Fail(text) => out.push_str(&format!("{}{};\n", pad, text)),
        }
    }
}

impl Prog {
    pub fn render(&self) -> String {
        let mut t = String::new();
        render_ops(&self.top, 0, &mut t);
        for r in &self.requests {
            t.push_str(&r.render());
        }
        for x in &self.tests {
            t.push_str(&format!("test {} {{\n", x.name));
            render_ops(&x.ops, 2, &mut t);
            t.push_str("}\n");
        }
        t
    }
    pub fn req(&self, name: &str) -> Option<&Req> {
        self.requests.iter().find(|r| r.name == name)
    }
    pub fn test(&self, name: &str) -> Option<&Test> {
        self.tests.iter().find(|r| r.name == name)
    }
}

/// `{name}` substitution with the environment's values.
pub fn subst(text: &str, env: &Env) -> String {
    let b: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '{' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_whitespace() {
                j += 1;
            }
            let s = j;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == '_') {
                j += 1;
            }
            let e = j;
            while j < b.len() && b[j].is_whitespace() {
                j += 1;
            }
            if j < b.len() && b[j] == '}' && e > s && !b[s].is_ascii_digit() {
                let name: String = b[s..e].iter().collect();
                out.push_str(&env.get(&name).cloned().unwrap_or(Val::Null).to_string());
                i = j + 1;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    out
}
pub fn format_args(text: &str, args: &[Val]) -> String {
    let mut out = String::new();
    let mut rest = text;
    let mut it = args.iter();
    while let Some(i) = rest.find('{') {
        out.push_str(&rest[..i]);
        let j = rest[i..].find('}').unwrap() + i;
        out.push_str(&it.next().unwrap_or(&Val::Null).to_string());
        rest = &rest[j + 1..];
    }
    out.push_str(rest);
    out
}

/// The request a call denotes, with the variables of the moment.
#[derive(Clone, Debug)]
pub struct Wire {
    pub name: String,
    pub method: String,
    pub scheme: String,
    pub host: String,
    pub port: u16,
    pub path: String,
    pub version: String,
    pub headers: Vec<(String, String)>,
    pub head: Vec<u8>,
    pub body: Option<Vec<u8>>,
    /// multipart: expected parts (name, value or @file)
    pub parts: Option<Vec<(String, String)>>,
    pub url: String,
    /// the record's textual body, when it is unambiguous
    pub text: Option<String>,
}

pub fn encode_form(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        match b {
            b'*' | b'-' | b'.' | b'_' | b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' => o.push(b as char),
            b' ' => o.push('+'),
            _ => o.push_str(&format!("%{:02X}", b)),
        }
    }
    o
}

pub fn wire(r: &Req, env: &Env) -> Wire {
    let host = subst(&r.host, env);
    let mut path = subst(&r.path, env);
    if !path.starts_with('/') {
        path.insert(0, '/');
    }
    let headers: Vec<(String, String)> = r.headers.iter().map(|(a, b)| (a.clone(), subst(b, env).trim().to_string())).collect();
    let version = r.version.clone().unwrap_or("HTTP/1.1".into());
    let mut head = format!("{} {} {}\r\n", r.method, path, version);
    for (a, b) in &headers {
        head.push_str(&format!("{}: {}\r\n", a, b));
    }
    head.push_str("\r\n");
    let mut parts = None;
    let mut text = None;
    let body = match &r.body {
        Body::None => {
            text = Some(String::new());
            Some(Vec::new())
        }
        Body::Text(t) => {
            let t = subst(t, env);
            text = Some(t.clone());
            Some(t.into_bytes())
        }
        Body::Form(f) => {
            let mut o = String::new();
            for (i, (a, b)) in f.iter().enumerate() {
                if i > 0 {
                    o.push('&');
                }
                o.push_str(&encode_form(a));
                o.push('=');
                o.push_str(&encode_form(&subst(b, env)));
            }
            text = Some(o.clone());
            Some(o.into_bytes())
        }
        Body::Multi(p) => {
            parts = Some(p.iter().map(|(a, b)| (a.clone(), subst(b, env))).collect());
            None
        }
    };
    let default = if r.scheme == "https" { 443 } else { 80 };
    Wire {
        name: r.name.clone(),
        method: r.method.clone(),
        scheme: r.scheme.clone(),
        host: host.clone(),
        port: r.port.unwrap_or(default),
        path: path.clone(),
        version,
        headers,
        head: head.into_bytes(),
        body,
        parts,
        url: match r.port {
            Some(p) if p != default => format!("{}://{}:{}{}", r.scheme, host, p, path),
            _ => format!("{}://{}{}", r.scheme, host, path),
        },
        text,
    }
}

/// An absolute URL with its scheme's own port left out.
pub fn plain_url(u: &str) -> String {
    for (scheme, port) in [("http://", ":80"), ("https://", ":443")] {
        if let Some(rest) = u.strip_prefix(scheme) {
            let end = rest.find(|c| matches!(c, '/' | '?' | '#')).unwrap_or(rest.len());
            if let Some(host) = rest[..end].strip_suffix(port) {
                return format!("{scheme}{host}{}", &rest[end..]);
            }
        }
    }
    u.to_string()
}

/// A response as the model understands it.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Resp {
    pub version: String,
    pub status: i64,
    pub reason: String,
    pub headers: Vec<(String, String)>,
    pub body: String,
}
impl Resp {
    pub fn to_val(&self) -> Val {
        let mut m = BTreeMap::new();
        m.insert("version".into(), Val::Str(self.version.clone()));
        m.insert("status".into(), Val::Int(self.status));
        m.insert("reason".into(), Val::Str(self.reason.clone()));
        let mut h: BTreeMap<String, Val> = BTreeMap::new();
        for (a, b) in &self.headers {
            match h.get_mut(a) {
                Some(Val::Arr(v)) => v.push(Val::Str(b.clone())),
                _ => {
                    h.insert(a.clone(), Val::Arr(vec![Val::Str(b.clone())]));
                }
            }
        }
        m.insert("headers".into(), Val::Map(h));
        m.insert("body".into(), Val::Str(self.body.clone()));
        if let Some(j) = simple_json(&self.body) {
            m.insert("json".into(), j);
        }
        Val::Map(m)
    }
}

/// JSON with strings, integers, booleans, null, arrays and objects, as used
/// by the generators' bodies.
pub fn simple_json(text: &str) -> Option<Val> {
    let v: serde_json::Value = serde_json::from_str(text).ok()?;
    fn conv(v: &serde_json::Value) -> Option<Val> {
        Some(match v {
            serde_json::Value::Null => Val::Null,
            serde_json::Value::Bool(b) => Val::Bool(*b),
            serde_json::Value::Number(n) => match n.as_i64() {
                Some(i) => Val::Int(i),
                None => Val::Flt(n.as_f64()?),
            },
            serde_json::Value::String(s) => Val::Str(s.clone()),
            serde_json::Value::Array(a) => Val::Arr(a.iter().map(conv).collect::<Option<_>>()?),
            serde_json::Value::Object(o) => {
                Val::Map(o.iter().map(|(k, v)| Some((k.clone(), conv(v)?))).collect::<Option<_>>()?)
            }
        })
    }
    conv(&v)
}
