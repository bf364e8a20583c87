//! Executes codec scripts: every operation of the packet, attribute and dictionary API.
use crate::dict_driver;
use crate::util::*;
use chrono::{TimeZone, Utc};
use radius::core::avp::{AVPError, AVP};
use radius::core::code::Code;
use radius::core::packet::Packet;
use radius::core::tag::Tag;
use radius::core::vsa::{StringVSA, TaggedStringVSA, VSA};
use serde_json::{json, Map, Value};
use std::collections::HashMap;

/// A value in canonical octets with its tag (-1: none).
pub struct Val {
    pub val: Vec<u8>,
    pub tag: i32,
}
pub fn v(val: Vec<u8>) -> Val {
    Val { val, tag: -1 }
}
pub fn vt(val: Vec<u8>, tag: Option<Tag>) -> Val {
    Val { val, tag: tag.map_or(-1, |t| t.get_value() as i32) }
}
/// One attribute of a dictionary module.
pub struct Entry {
    pub num: u8,
    pub add: fn(&mut Packet, &[u8], Option<&Tag>) -> Result<(), AVPError>,
    pub look: fn(&Packet) -> Option<Result<Val, AVPError>>,
    pub all: fn(&Packet) -> Result<Vec<Val>, AVPError>,
    pub del: fn(&mut Packet),
}

pub fn be4(b: &[u8]) -> u32 {
    u32::from_be_bytes([b[0], b[1], b[2], b[3]])
}
pub fn be2(b: &[u8]) -> u16 {
    u16::from_be_bytes([b[0], b[1]])
}
pub fn ip4(b: &[u8]) -> std::net::Ipv4Addr {
    std::net::Ipv4Addr::new(b[0], b[1], b[2], b[3])
}
pub fn ip6(b: &[u8]) -> std::net::Ipv6Addr {
    let mut a = [0u8; 16];
    a.copy_from_slice(b);
    std::net::Ipv6Addr::from(a)
}
pub fn txt(b: &[u8]) -> &str {
    std::str::from_utf8(b).expect("script text is UTF-8")
}
pub fn date(b: &[u8]) -> chrono::DateTime<Utc> {
    Utc.timestamp_opt(be4(b) as i64, 0).unwrap()
}
pub fn date_octets(d: chrono::DateTime<Utc>) -> Vec<u8> {
    let t = d.timestamp();
    if d.timestamp_subsec_nanos() != 0 || !(0..=u32::MAX as i64).contains(&t) {
        return format!("{t}").into_bytes(); // not a value of this format: never equals four octets of a date
    }
    (t as u32).to_be_bytes().to_vec()
}

pub struct Session {
    objs: HashMap<i64, Packet>,
    regs: HashMap<String, Vec<u8>>,
    pub ev: Vec<Value>,
}

impl Default for Session {
    fn default() -> Self {
        Self::new()
    }
}

pub fn attrs_json(p: &Packet) -> Value {
    let mut out = vec![];
    for t in 0..=255u8 {
        let vs = p.lookup_all(t);
        if !vs.is_empty() {
            out.push(json!({"t": t, "vs": vs.iter().map(|a| hex(&a.encode_bytes())).collect::<Vec<_>>()}));
        }
    }
    Value::Array(out)
}

impl Session {
    pub fn new() -> Self {
        Session { objs: HashMap::new(), regs: HashMap::new(), ev: vec![] }
    }

    /// Bytes: a literal, or a register with mutations applied.
    fn bytes(&self, x: &Value) -> Vec<u8> {
        if let Some(s) = x.as_str() {
            return unhex(s);
        }
        let mut b = match x["r"].as_str() {
            Some(r) => self.regs.get(r).cloned().unwrap_or_default(),
            None => match x["auth"].as_i64() {
                Some(o) => self.objs.get(&o).map(|p| p.get_authenticator().clone()).unwrap_or_default(),
                None => vec![],
            },
        };
        if let Some(ms) = x["m"].as_array() {
            for m in ms {
                let n = b.len();
                let pos = |i: usize| if n == 0 { 0 } else { m[i].as_i64().unwrap().rem_euclid(n as i64) as usize };
                match m[0].as_str().unwrap() {
                    "x" if n > 0 => b[pos(1)] ^= m[2].as_u64().unwrap() as u8,
                    "s" if n > 0 => b[pos(1)] = m[2].as_u64().unwrap() as u8,
                    "t" => {
                        let k = m[1].as_i64().unwrap();
                        let k = if k < 0 { (n as i64 + k).max(0) } else { k } as usize;
                        b.truncate(k)
                    }
                    "a" => b.extend(unhex(m[1].as_str().unwrap())),
                    _ => {}
                }
            }
        }
        b
    }

    pub fn run(&mut self, op: &Value) {
        let e = op["e"].as_str().expect("op").to_owned();
        let mut r: Map<String, Value> = Map::new();
        r.insert("e".into(), json!(e));
        self.step(&e, op, &mut r);
        self.ev.push(Value::Object(r));
    }

    fn step(&mut self, e: &str, op: &Value, r: &mut Map<String, Value>) {
        let o = op["o"].as_i64().unwrap_or(-1);
        let n = op["n"].as_i64().unwrap_or(-1);
        let t = op["t"].as_u64().unwrap_or(0) as u8;
        macro_rules! put { ($($k:expr => $v:expr),*) => {{ $( r.insert($k.into(), json!($v)); )* }} }
        macro_rules! need {
            () => {
                match self.objs.get(&o) {
                    Some(p) => p,
                    None => {
                        r.insert("e".into(), json!("skip"));
                        return;
                    }
                }
            };
        }
        macro_rules! need_mut {
            () => {
                match self.objs.get_mut(&o) {
                    Some(p) => p,
                    None => {
                        r.insert("e".into(), json!("skip"));
                        return;
                    }
                }
            };
        }
        match e {
            "new" => {
                let code = op["code"].as_u64().unwrap() as u8;
                let id = op["id"].as_i64().unwrap_or(-1);
                let secret = self.bytes(&op["secret"]);
                let res = guard(|| {
                    if id < 0 {
                        Packet::new(Code::from(code), &secret)
                    } else {
                        Packet::new_with_identifier(Code::from(code), &secret, id as u8)
                    }
                });
                put!("o" => o, "code" => code, "id" => id, "secret" => hex(&secret));
                match res {
                    Ok(p) => {
                        put!("res" => "ok", "rid" => p.get_identifier(), "rauth" => hex(p.get_authenticator()));
                        self.objs.insert(o, p);
                    }
                    Err(()) => put!("res" => "panic"),
                }
            }
            "get" => {
                let p = need!();
                let first: Vec<Value> = (0..=255u8)
                    .filter_map(|t| p.lookup(t).map(|a| json!({"t": t, "v": hex(&a.encode_bytes())})))
                    .collect();
                put!("o" => o, "code" => p.get_code() as u8, "id" => p.get_identifier(), "auth" => hex(p.get_authenticator()),
                     "secret" => hex(p.get_secret()), "attrs" => attrs_json(p), "first" => first);
            }
            "setid" => {
                let id = op["id"].as_u64().unwrap() as u8;
                need_mut!().set_identifier(id);
                put!("o" => o, "id" => id);
            }
            "add" => {
                let val = self.bytes(&op["v"]);
                need_mut!().add(AVP::from_bytes(t, &val));
                put!("o" => o, "t" => t, "v" => hex(&val));
            }
            "ext" => {
                let avs: Vec<(u8, Vec<u8>)> = op["avs"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|a| (a[0].as_u64().unwrap() as u8, self.bytes(&a[1])))
                    .collect();
                need_mut!().extend(avs.iter().map(|(t, v)| AVP::from_bytes(*t, v)).collect());
                put!("o" => o, "avs" => avs.iter().map(|(t, v)| json!({"t": t, "v": hex(v)})).collect::<Vec<_>>());
            }
            "del" => {
                need_mut!().delete(t);
                put!("o" => o, "t" => t);
            }
            "look" => {
                let p = need!();
                put!("o" => o, "t" => t);
                match p.lookup(t) {
                    Some(a) => put!("res" => "ok", "v" => hex(&a.encode_bytes())),
                    None => put!("res" => "none"),
                }
            }
            "lookall" => {
                let p = need!();
                let vs: Vec<String> = p.lookup_all(t).iter().map(|a| hex(&a.encode_bytes())).collect();
                put!("o" => o, "t" => t, "vs" => vs);
            }
            "enc" => {
                let p = need!();
                let res = guard(|| p.encode());
                put!("o" => o);
                match res {
                    Ok(Ok(b)) => {
                        put!("res" => "ok", "bytes" => hex(&b));
                        if let Some(reg) = op["r"].as_str() {
                            self.regs.insert(reg.to_owned(), b);
                        }
                    }
                    Ok(Err(e)) => put!("res" => "err", "err" => variant(&e)),
                    Err(()) => put!("res" => "panic"),
                }
            }
            "dec" => {
                let b = self.bytes(&op["b"]);
                let secret = self.bytes(&op["secret"]);
                let res = guard(|| Packet::decode(&b, &secret));
                put!("o" => o, "b" => hex(&b), "secret" => hex(&secret));
                match res {
                    Ok(Ok(p)) => {
                        put!("res" => "ok");
                        self.objs.insert(o, p);
                    }
                    Ok(Err(e)) => put!("res" => "err", "err" => variant(&e)),
                    Err(()) => put!("res" => "panic"),
                }
            }
            "mkresp" => {
                let code = op["code"].as_u64().unwrap() as u8;
                let q = need!().make_response_packet(Code::from(code));
                self.objs.insert(n, q);
                put!("o" => o, "n" => n, "code" => code);
            }
            "clone" => {
                let q = need!().clone();
                self.objs.insert(n, q);
                put!("o" => o, "n" => n);
            }
            "eq" => {
                let p = need!();
                match self.objs.get(&n) {
                    Some(q) => put!("o" => o, "n" => n, "res" => (p == q)),
                    None => put!("e" => "skip"),
                }
            }
            "areq" => {
                let b = self.bytes(&op["b"]);
                let secret = self.bytes(&op["secret"]);
                put!("b" => hex(&b), "secret" => hex(&secret));
                match guard(|| Packet::is_authentic_request(&b, &secret)) {
                    Ok(x) => put!("res" => if x { "yes" } else { "no" }),
                    Err(()) => put!("res" => "panic"),
                }
            }
            "aresp" => {
                let b = self.bytes(&op["b"]);
                let q = self.bytes(&op["q"]);
                let secret = self.bytes(&op["secret"]);
                put!("b" => hex(&b), "q" => hex(&q), "secret" => hex(&secret));
                match guard(|| Packet::is_authentic_response(&b, &q, &secret)) {
                    Ok(x) => put!("res" => if x { "yes" } else { "no" }),
                    Err(()) => put!("res" => "panic"),
                }
            }
            "mk" => {
                let kind = op["kind"].as_str().unwrap();
                let val = self.bytes(&op["val"]);
                let tag = op["tag"].as_i64().unwrap_or(-1);
                let secret = self.bytes(&op["secret"]);
                let auth = self.bytes(&op["auth"]);
                put!("kind" => kind, "t" => t, "val" => hex(&val), "tag" => tag, "secret" => hex(&secret), "auth" => hex(&auth));
                match guard(|| make(kind, t, &val, tag, &secret, &auth)) {
                    Ok(Ok(a)) => {
                        let raw = a.encode_bytes();
                        let mut p = Packet::new_with_identifier(Code::AccessRequest, b"x", 0);
                        p.add(a);
                        let ts: Vec<u8> = (0..=255u8).filter(|t| p.lookup(*t).is_some()).collect();
                        put!("res" => "ok", "raw" => hex(&raw), "rt" => if ts.len() == 1 { ts[0] as i32 } else { -1 });
                        if let Some(reg) = op["r"].as_str() {
                            self.regs.insert(reg.to_owned(), raw);
                        }
                    }
                    Ok(Err(e)) => put!("res" => "err", "err" => variant(&e)),
                    Err(()) => put!("res" => "panic"),
                }
            }
            "rd" => {
                let kind = op["kind"].as_str().unwrap();
                let raw = self.bytes(&op["raw"]);
                let secret = self.bytes(&op["secret"]);
                let auth = self.bytes(&op["auth"]);
                put!("kind" => kind, "raw" => hex(&raw), "secret" => hex(&secret), "auth" => hex(&auth));
                let a = AVP::from_bytes(t, &raw);
                match guard(|| read(kind, &a, &secret, &auth)) {
                    Ok(Ok(x)) => put!("res" => "ok", "val" => hex(&x.val), "tag" => x.tag),
                    Ok(Err(e)) => put!("res" => "err", "err" => variant(&e)),
                    Err(()) => put!("res" => "panic"),
                }
            }
            "vsa" => {
                let vendor = self.bytes(&op["vendor"]);
                let vid = i32::from_be_bytes([vendor[0], vendor[1], vendor[2], vendor[3]]);
                let vtype = op["vtype"].as_u64().unwrap() as u8;
                let tag = op["tag"].as_i64().unwrap_or(-1);
                let val = self.bytes(&op["val"]);
                put!("vendor" => hex(&vendor), "vtype" => vtype, "tag" => tag, "val" => hex(&val));
                let res = guard(|| {
                    if tag < 0 {
                        let x = StringVSA::new(vid, vtype, txt(&val));
                        (x.message(), x.len(), x.is_empty())
                    } else {
                        let x = TaggedStringVSA::new(vid, vtype, tag as u8, txt(&val));
                        (x.message(), x.len(), x.is_empty())
                    }
                });
                match res {
                    Ok((m, l, em)) => {
                        put!("res" => "ok", "msg" => hex(&m), "len" => l, "empty" => em);
                        if let Some(reg) = op["r"].as_str() {
                            self.regs.insert(reg.to_owned(), m);
                        }
                    }
                    Err(()) => put!("res" => "panic"),
                }
            }
            "tag" => {
                let x = op["v"].as_u64().unwrap() as u8;
                let tg = if op["unused"].as_bool().unwrap_or(false) { Tag::new_unused() } else { Tag::new(x) };
                put!("v" => x, "unused" => op["unused"].as_bool().unwrap_or(false), "get" => tg.get_value(), "zero" => tg.is_zero(),
                     "valid" => tg.is_valid_value());
            }
            "code" => {
                let x = op["v"].as_u64().unwrap() as u8;
                let c = Code::from(x);
                put!("v" => x, "num" => c as u8, "name" => c.string());
            }
            "dnum" => {
                let a = op["a"].as_u64().unwrap() as usize;
                put!("a" => a, "num" => dict_driver::entries()[a].num);
            }
            "dconst" => {
                let a = op["a"].as_u64().unwrap() as usize;
                put!("a" => a, "num" => hex(&dict_driver::constants()[a].to_be_bytes()));
            }
            "dadd" => {
                let a = op["a"].as_u64().unwrap() as usize;
                let val = self.bytes(&op["val"]);
                let tag = op["tag"].as_i64().unwrap_or(-1);
                let p = need_mut!();
                let ent = &dict_driver::entries()[a];
                let tg = if tag < 0 { None } else { Some(Tag::new(tag as u8)) };
                put!("o" => o, "a" => a, "val" => hex(&val), "tag" => tag);
                match guard(|| (ent.add)(p, &val, tg.as_ref())) {
                    Ok(Ok(())) => put!("res" => "ok"),
                    Ok(Err(e)) => put!("res" => "err", "err" => variant(&e)),
                    Err(()) => put!("res" => "panic"),
                }
                put!("attrs" => attrs_json(p));
            }
            "dlook" => {
                let a = op["a"].as_u64().unwrap() as usize;
                let p = need!();
                put!("o" => o, "a" => a);
                match guard(|| (dict_driver::entries()[a].look)(p)) {
                    Ok(None) => put!("res" => "none"),
                    Ok(Some(Ok(x))) => put!("res" => "ok", "val" => hex(&x.val), "tag" => x.tag),
                    Ok(Some(Err(e))) => put!("res" => "err", "err" => variant(&e)),
                    Err(()) => put!("res" => "panic"),
                }
            }
            "dall" => {
                let a = op["a"].as_u64().unwrap() as usize;
                let p = need!();
                put!("o" => o, "a" => a);
                match guard(|| (dict_driver::entries()[a].all)(p)) {
                    Ok(Ok(xs)) => put!("res" => "ok", "vals" => xs.iter().map(|x| json!({"val": hex(&x.val), "tag": x.tag})).collect::<Vec<_>>()),
                    Ok(Err(e)) => put!("res" => "err", "err" => variant(&e)),
                    Err(()) => put!("res" => "panic"),
                }
            }
            "ddel" => {
                let a = op["a"].as_u64().unwrap() as usize;
                let p = need_mut!();
                (dict_driver::entries()[a].del)(p);
                put!("o" => o, "a" => a);
            }
            "dbg" => {
                let p = need!();
                put!("o" => o, "text" => format!("{p:?}"), "alt" => format!("{p:#?}"));
            }
            "errtxt" => {
                // the texts of the error that an inner operation returns, under a key that does not mention the secret
                let key = op["key"].as_str().unwrap();
                let text = match self.error_text(&op["op"]) {
                    Some(t) => t,
                    None => "no error".to_owned(),
                };
                put!("key" => key, "text" => text);
            }
            other => panic!("unknown op {other}"),
        }
    }

    fn error_text(&self, op: &Value) -> Option<String> {
        let secret = self.bytes(&op["secret"]);
        fn both<E: std::fmt::Debug + std::fmt::Display>(e: E) -> String {
            format!("{e} | {e:?} | {e:#?}")
        }
        match op["e"].as_str().unwrap() {
            "dec" => Packet::decode(&self.bytes(&op["b"]), &secret).err().map(both),
            "encdec" => {
                // decode a packet under the secret, add an attribute, encode
                let mut p = Packet::decode(&self.bytes(&op["b"]), &secret).ok()?;
                p.add(AVP::from_bytes(1, &self.bytes(&op["v"])));
                p.encode().err().map(both)
            }
            "mk" => make(
                op["kind"].as_str().unwrap(),
                1,
                &self.bytes(&op["val"]),
                op["tag"].as_i64().unwrap_or(-1),
                &secret,
                &self.bytes(&op["auth"]),
            )
            .err()
            .map(both),
            "rd" => read(
                op["kind"].as_str().unwrap(),
                &AVP::from_bytes(1, &self.bytes(&op["raw"])),
                &secret,
                &self.bytes(&op["auth"]),
            )
            .err()
            .map(both),
            _ => None,
        }
    }
}

pub fn make(kind: &str, t: u8, val: &[u8], tag: i64, secret: &[u8], auth: &[u8]) -> Result<AVP, AVPError> {
    let tg = if tag < 0 { None } else { Some(Tag::new(tag as u8)) };
    Ok(match kind {
        "integer" => AVP::from_u32(t, be4(val)),
        "short" => AVP::from_u16(t, be2(val)),
        "tagged_integer" => AVP::from_tagged_u32(t, tg.as_ref(), be4(val)),
        "string" => AVP::from_string(t, txt(val)),
        "tagged_string" => AVP::from_tagged_string(t, tg.as_ref(), txt(val)),
        "octets" => AVP::from_bytes(t, val),
        "ipaddr" => AVP::from_ipv4(t, &ip4(val)),
        "ipv4prefix" => AVP::from_ipv4_prefix(t, val)?,
        "ipv6addr" => AVP::from_ipv6(t, &ip6(val)),
        "ipv6prefix" => AVP::from_ipv6_prefix(t, val)?,
        "user_password" => AVP::from_user_password(t, val, secret, auth)?,
        "date" => AVP::from_date(t, &date(val)),
        "tunnel_password" => AVP::from_tunnel_password(t, tg.as_ref(), val, secret, auth)?,
        k => panic!("unknown kind {k}"),
    })
}

pub fn read(kind: &str, a: &AVP, secret: &[u8], auth: &[u8]) -> Result<Val, AVPError> {
    Ok(match kind {
        "integer" => v(a.encode_u32()?.to_be_bytes().to_vec()),
        "short" => v(a.encode_u16()?.to_be_bytes().to_vec()),
        "tagged_integer" => {
            let (x, t) = a.encode_tagged_u32()?;
            vt(x.to_be_bytes().to_vec(), Some(t))
        }
        "string" => v(a.encode_string()?.into_bytes()),
        "tagged_string" => {
            let (x, t) = a.encode_tagged_string()?;
            vt(x.into_bytes(), t)
        }
        "octets" => v(a.encode_bytes()),
        "ipaddr" => v(a.encode_ipv4()?.octets().to_vec()),
        "ipv4prefix" => v(a.encode_ipv4_prefix()?),
        "ipv6addr" => v(a.encode_ipv6()?.octets().to_vec()),
        "ipv6prefix" => v(a.encode_ipv6_prefix()?),
        "user_password" => v(a.encode_user_password(secret, auth)?),
        "date" => v(date_octets(a.encode_date()?)),
        "tunnel_password" => {
            let (x, t) = a.encode_tunnel_password(secret, auth)?;
            vt(x, Some(t))
        }
        k => panic!("unknown kind {k}"),
    })
}
