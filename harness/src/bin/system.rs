//! system SESSIONS OUT PAR: the real server and real clients over a network the driver controls; see spec/TraceSystem.tla.
//! Each client c talks to the proxy's socket down[c]; the server sees its requests come from up[c].
use async_trait::async_trait;
use harness::exec::attrs_json;
use harness::util::*;
use radius::client::{Client, ClientError};
use radius::core::avp::AVP;
use radius::core::code::Code;
use radius::core::packet::Packet;
use radius::core::request::Request;
use radius::core::tag::Tag;
use radius::core::{rfc2865, rfc2868};
use radius::server::{RequestHandler, SecretProvider, SecretProviderError, Server};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, BufWriter, Write};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::net::UdpSocket;
use tokio::sync::oneshot;

#[derive(Default)]
struct Net {
    ev: Vec<Value>,
    srcs: HashMap<SocketAddr, usize>,
    secrets: Vec<Vec<u8>>,
    starts: usize,
    gates: HashMap<usize, oneshot::Sender<Value>>,
    auto: Option<Value>, // free running: how handlers answer
    rng: u64,
    wires: HashMap<(usize, Vec<u8>), usize>, // the call that a datagram of client c belongs to
    sent: HashMap<(usize, usize), Vec<u8>>, // (client, call) -> datagram
    calls: Vec<usize>,                      // calls made, per client
    open: Vec<bool>,                        // call under way, per client
    from: Vec<Option<SocketAddr>>,          // where client c's present request came from
    replies: HashMap<usize, (usize, Vec<u8>)>, // handler -> (client, datagram seen at up[client])
    handler_of: HashMap<Vec<u8>, usize>,
    pool_q: Vec<(usize, Vec<u8>)>,
    pool_r: Vec<Vec<u8>>,
}
impl Net {
    fn rnd(&mut self, n: u64) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        (self.rng >> 11) % n.max(1)
    }
}
type Ctl = Arc<Mutex<Net>>;

async fn until(n: &Ctl, ms: u64, f: impl Fn(&Net) -> bool) -> bool {
    let end = Instant::now() + Duration::from_millis(ms);
    loop {
        if f(&n.lock().unwrap()) {
            return true;
        }
        if Instant::now() >= end {
            return false;
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
}

struct H(Ctl);
struct P(Ctl);

#[async_trait]
impl RequestHandler<(), String> for H {
    async fn handle_radius_request(&self, conn: &UdpSocket, req: &Request) -> Result<(), String> {
        let p = req.get_packet();
        let pw = match rfc2865::lookup_user_password(p) {
            None => "none".to_owned(),
            Some(Err(_)) => "error".to_owned(),
            Some(Ok(v)) => hex(&v),
        };
        let (h, c, gate) = {
            let mut g = self.0.lock().unwrap();
            g.starts += 1;
            let h = g.starts;
            let c = *g.srcs.get(&req.get_remote_addr()).ok_or("stranger")?;
            g.ev.push(json!({"e": "start", "h": h, "s": c, "code": p.get_code() as u8, "id": p.get_identifier(), "auth": hex(p.get_authenticator()),
                "secret": hex(p.get_secret()), "attrs": attrs_json(p), "pw": pw}));
            let gate = if g.auto.is_none() {
                let (tx, rx) = oneshot::channel();
                g.gates.insert(h, tx);
                Some(rx)
            } else {
                None
            };
            (h, c, gate)
        };
        let cmd = match gate {
            Some(rx) => rx.await.map_err(|_| "over".to_owned())?,
            None => {
                let (cmd, wait) = {
                    let mut g = self.0.lock().unwrap();
                    let list = g.auto.as_ref().unwrap()["answers"].as_array().unwrap().clone();
                    let k = g.rnd(list.len() as u64) as usize;
                    let w = g.rnd(8);
                    (list[k].clone(), w)
                };
                tokio::time::sleep(Duration::from_millis(wait)).await;
                cmd
            }
        };
        let mut r = p.make_response_packet(Code::from(cmd["code"].as_u64().unwrap() as u8));
        for av in cmd["attrs"].as_array().unwrap() {
            r.add(AVP::from_bytes(av[0].as_u64().unwrap() as u8, &unhex(av[1].as_str().unwrap())));
        }
        let mut tp = "none".to_owned();
        if let Some(t) = cmd["tp"].as_str() {
            let tag = cmd["tag"].as_u64().map(|x| Tag::new(x as u8));
            tp = match rfc2868::add_tunnel_password(&mut r, tag.as_ref(), &unhex(t)) {
                Ok(()) => format!("{}/{}", tag.map_or(0, |t| t.get_value()), t),
                Err(_) => "error".to_owned(),
            };
        }
        let b = r.encode();
        {
            let mut g = self.0.lock().unwrap();
            if let Ok(b) = &b {
                g.handler_of.insert(b.clone(), h);
            }
            g.ev.push(json!({"e": "end", "h": h, "s": c, "code": r.get_code() as u8, "attrs": attrs_json(&r), "tp": tp, "b": b.as_ref().map_or("error".to_owned(), |b| hex(b))}));
        }
        if let Ok(b) = b {
            let _ = conn.send_to(&b, req.get_remote_addr()).await;
        }
        Ok(())
    }
}
impl SecretProvider for P {
    fn fetch_secret(&self, remote: SocketAddr) -> Result<Vec<u8>, SecretProviderError> {
        let g = self.0.lock().unwrap();
        match g.srcs.get(&remote) {
            Some(c) => Ok(g.secrets[*c].clone()),
            None => Err(SecretProviderError::FailedFetchingError("stranger".into())),
        }
    }
}

fn hurt(b: &mut Vec<u8>, how: &Value) {
    for f in how["flip"].as_array().unwrap_or(&vec![]) {
        if !b.is_empty() {
            let k = f[0].as_u64().unwrap() as usize % b.len();
            b[k] ^= f[1].as_u64().unwrap() as u8;
        }
    }
    if let Some(n) = how["cut"].as_u64() {
        b.truncate(n as usize);
    }
}

/// One call of client c.
fn call(n: &Ctl, c: usize, op: &Value, to: SocketAddr, timeout: u64) -> tokio::task::JoinHandle<()> {
    let net = n.clone();
    let (secret, k) = {
        let mut g = n.lock().unwrap();
        g.calls[c] += 1;
        g.open[c] = true;
        g.from[c] = None;
        (g.secrets[c].clone(), g.calls[c])
    };
    let mut p = Packet::new_with_identifier(Code::from(op["code"].as_u64().unwrap() as u8), &secret, op["id"].as_u64().unwrap() as u8);
    for av in op["attrs"].as_array().unwrap() {
        p.add(AVP::from_bytes(av[0].as_u64().unwrap() as u8, &unhex(av[1].as_str().unwrap())));
    }
    let mut pw = "none".to_owned();
    if let Some(x) = op["pw"].as_str() {
        pw = if rfc2865::add_user_password(&mut p, &unhex(x)).is_ok() { x.to_owned() } else { "error".to_owned() };
    }
    let wire = p.encode().unwrap_or_default();
    let auth = wire.get(4..20).unwrap_or_default().to_vec();
    net.lock().unwrap().wires.insert((c, wire), k);
    net.lock().unwrap().ev.push(json!({"e": "call", "c": c, "n": k, "code": p.get_code() as u8, "id": p.get_identifier(), "secret": hex(&secret), "attrs": attrs_json(&p), "pw": pw}));
    tokio::spawn(async move {
        let client = Client::new(None, Some(Duration::from_millis(timeout)));
        let r = tokio::spawn(async move { client.send_packet(&to, &p).await }).await;
        let mut g = net.lock().unwrap();
        g.open[c] = false;
        let none = json!({"code": 0, "id": 0, "attrs": [], "secret": ""});
        let (kind, p, tp, lookup) = match r {
            Err(_) => ("panic", none, "none".to_owned(), "none".to_owned()),
            Ok(Err(ClientError::SocketTimeoutError())) => ("timeout", none, "none".to_owned(), "none".to_owned()),
            Ok(Err(_)) => ("error", none, "none".to_owned(), "none".to_owned()),
            Ok(Ok(p)) => {
                let text = |r: Option<Result<(Vec<u8>, Tag), _>>| match r {
                    None => "none".to_owned(),
                    Some(Ok((v, t))) => format!("{}/{}", t.get_value(), hex(&v)),
                    Some(Err::<_, radius::core::avp::AVPError>(_)) => "error".to_owned(),
                };
                let tp = text(p.lookup(rfc2868::TUNNEL_PASSWORD_TYPE).map(|a| a.encode_tunnel_password(&secret, &auth)));
                let lookup = text(rfc2868::lookup_tunnel_password(&p));
                ("ok", json!({"code": p.get_code() as u8, "id": p.get_identifier(), "attrs": attrs_json(&p), "secret": hex(p.get_secret())}), tp, lookup)
            }
        };
        g.ev.push(json!({"e": "result", "c": c, "n": k, "kind": kind, "p": p, "tp": tp, "lookup": lookup}));
    })
}

fn to_server(n: &Ctl, c: usize, b: &[u8]) {
    n.lock().unwrap().ev.push(json!({"e": "toserver", "s": c, "b": hex(b)}));
}

async fn session(s: Value) -> Value {
    let nc = s["clients"].as_u64().unwrap() as usize;
    let net: Ctl = Default::default();
    let mut down = vec![];
    let mut up = vec![];
    for c in 0..nc {
        let d = Arc::new(harness::ports::bind_tokio("127.0.0.1".parse().unwrap()));
        let u = Arc::new(harness::ports::bind_tokio("127.0.0.1".parse().unwrap()));
        let mut g = net.lock().unwrap();
        g.srcs.insert(u.local_addr().unwrap(), c);
        g.secrets.push(unhex(s["secrets"][c].as_str().unwrap()));
        g.calls.push(0);
        g.open.push(false);
        g.from.push(None);
        drop(g);
        down.push(d);
        up.push(u);
    }
    {
        let mut g = net.lock().unwrap();
        g.rng = s["seed"].as_u64().unwrap_or(1) | 1;
        if s["auto"].is_object() {
            g.auto = Some(s["auto"].clone());
        }
    }
    let timeout = s["timeout"].as_u64().unwrap();
    // a port that no client of another session has had
    let port = harness::ports::bind("127.0.0.1".parse().unwrap()).local_addr().unwrap().port();
    let mut server = Server::listen("127.0.0.1", port, H(net.clone()), P(net.clone())).await.expect("listen");
    let addr = server.get_listen_address().expect("address");
    let (stop, stopped) = oneshot::channel::<()>();
    let srv = tokio::spawn(async move {
        let _ = server.run(stopped).await;
    });
    let mut tasks = vec![];
    let auto = s["auto"].clone();
    // the network's receiving ends
    for c in 0..nc {
        let (net2, d, ups, downs, auto2) = (net.clone(), down[c].clone(), up.clone(), down.clone(), auto.clone());
        tasks.push(tokio::spawn(async move {
            let mut buf = vec![0u8; 65536];
            loop {
                let Ok((k, from)) = d.recv_from(&mut buf).await else { continue };
                let b = buf[..k].to_vec();
                {
                    let mut g = net2.lock().unwrap();
                    let k = g.wires.get(&(c, b.clone())).copied().unwrap_or(g.calls[c]);
                    if k == g.calls[c] {
                        g.from[c] = Some(from);
                    }
                    g.sent.insert((c, k), b.clone());
                    g.ev.push(json!({"e": "sent", "c": c, "n": k, "b": hex(&b)}));
                }
                if auto2.is_object() {
                    let plan = plan(&net2, &auto2, (c, b.clone()), true);
                    for (w, cc, x) in plan {
                        let (net3, ups, downs) = (net2.clone(), ups.clone(), downs.clone());
                        tokio::spawn(async move {
                            tokio::time::sleep(Duration::from_millis(w)).await;
                            let _ = &downs;
                            to_server(&net3, cc, &x);
                            let _ = ups[cc].send_to(&x, addr).await;
                        });
                    }
                }
            }
        }));
        let (net2, u, downs, auto2) = (net.clone(), up[c].clone(), down.clone(), auto.clone());
        tasks.push(tokio::spawn(async move {
            let mut buf = vec![0u8; 65536];
            loop {
                let Ok((k, _)) = u.recv_from(&mut buf).await else { continue };
                let b = buf[..k].to_vec();
                {
                    let mut g = net2.lock().unwrap();
                    match g.handler_of.get(&b).copied() {
                        Some(h) => {
                            g.replies.insert(h, (c, b.clone()));
                        }
                        None => g.ev.push(json!({"e": "stray", "s": c, "b": hex(&b)})),
                    }
                }
                if auto2.is_object() {
                    for (w, cc, x) in plan(&net2, &auto2, (c, b.clone()), false) {
                        let (net3, downs) = (net2.clone(), downs.clone());
                        tokio::spawn(async move {
                            tokio::time::sleep(Duration::from_millis(w)).await;
                            let to = net3.lock().unwrap().from[cc];
                            if let Some(to) = to {
                                net3.lock().unwrap().ev.push(json!({"e": "toclient", "c": cc, "b": hex(&x)}));
                                let _ = downs[cc].send_to(&x, to).await;
                            }
                        });
                    }
                }
            }
        }));
    }
    let mut running = vec![];
    if auto.is_object() {
        // each client makes its calls one after the other, the clients at the same time
        let per = s["calls"].as_array().unwrap().clone();
        for (c, list) in per.into_iter().enumerate() {
            let (net2, to) = (net.clone(), down[c].local_addr().unwrap());
            running.push(tokio::spawn(async move {
                for op in list.as_array().unwrap() {
                    let _ = call(&net2, c, op, to, timeout).await;
                }
            }));
        }
        for t in running.drain(..) {
            let _ = t.await;
        }
    }
    let short = s["short"].as_u64().unwrap_or(80);
    for op in s["ops"].as_array().unwrap_or(&vec![]) {
        let c = op["c"].as_u64().unwrap_or(0) as usize;
        match op["op"].as_str().unwrap() {
            "call" => {
                if net.lock().unwrap().open[c] {
                    continue; // its call should have ended by now according to the history: it is not made
                }
                running.push(call(&net, c, op, down[c].local_addr().unwrap(), timeout));
                until(&net, 5000, |g| g.sent.contains_key(&(c, g.calls[c])) || !g.open[c]).await;
            }
            "toserver" => {
                let b = net.lock().unwrap().sent.get(&(c, op["n"].as_u64().unwrap() as usize)).cloned();
                if let Some(mut b) = b {
                    hurt(&mut b, &op["how"]);
                    let via = op["via"].as_u64().map_or(c, |x| x as usize);
                    to_server(&net, via, &b);
                    let before = net.lock().unwrap().starts;
                    let _ = up[via].send_to(&b, addr).await;
                    until(&net, op["wait"].as_u64().unwrap_or(short), |g| g.starts > before).await;
                }
            }
            "end" => {
                let h = op["h"].as_u64().unwrap() as usize;
                let gate = net.lock().unwrap().gates.remove(&h);
                if let Some(g) = gate {
                    let _ = g.send(op["answer"].clone());
                    until(&net, 5000, |g| g.replies.contains_key(&h)).await;
                }
            }
            "toclient" => {
                let h = op["h"].as_u64().unwrap() as usize;
                let (b, to) = {
                    let g = net.lock().unwrap();
                    (g.replies.get(&h).map(|x| x.1.clone()), g.from[c])
                };
                if let (Some(mut b), Some(to)) = (b, to) {
                    hurt(&mut b, &op["how"]);
                    net.lock().unwrap().ev.push(json!({"e": "toclient", "c": c, "b": hex(&b)}));
                    let _ = down[c].send_to(&b, to).await;
                    until(&net, op["wait"].as_u64().unwrap_or(short), |g| !g.open[c]).await;
                }
            }
            "timeout" => {
                until(&net, timeout + 5000, |g| !g.open[c]).await;
            }
            o => panic!("unknown op {o}"),
        }
    }
    if s["linger"].as_bool() == Some(true) {
        until(&net, timeout + 10000, |g| g.open.iter().all(|x| !x)).await;
    }
    for t in tasks.iter().chain(running.iter()) {
        t.abort();
    }
    let _ = stop.send(());
    let mut g = net.lock().unwrap();
    g.ev.push(json!({"e": "over", "clean": s["clean"].as_bool() == Some(true), "linger": s["linger"].as_bool() == Some(true)}));
    g.gates.clear();
    srv.abort();
    json!({"sid": s["sid"], "ev": std::mem::take(&mut g.ev)})
}

/// What the network does with a datagram of client c in a free running session: (delay, client, bytes) to deliver.
fn plan(n: &Ctl, auto: &Value, d: (usize, Vec<u8>), req: bool) -> Vec<(u64, usize, Vec<u8>)> {
    let mut g = n.lock().unwrap();
    let pct = |k: &str| auto[k].as_u64().unwrap_or(0);
    let (c, b) = d;
    let mut out = vec![];
    if req {
        g.pool_q.push((c, b.clone()));
    } else {
        g.pool_r.push(b.clone());
    }
    if g.rnd(100) >= pct("lose") {
        let mut x = b.clone();
        if g.rnd(100) < pct("corrupt") {
            let k = g.rnd(x.len() as u64) as usize;
            let bit = g.rnd(8);
            x[k] ^= 1 << bit;
        }
        let w = g.rnd(1 + pct("delay"));
        out.push((w, c, x));
    }
    if g.rnd(100) < pct("dup") {
        let w = g.rnd(1 + pct("delay"));
        out.push((w, c, b.clone()));
    }
    if g.rnd(100) < pct("replay") {
        let w = g.rnd(1 + pct("delay"));
        if req {
            let k = { let m = g.pool_q.len() as u64; g.rnd(m) as usize };
            let (cc, x) = g.pool_q[k].clone();
            out.push((w, cc, x));
        } else {
            let k = { let m = g.pool_r.len() as u64; g.rnd(m) as usize };
            let x = g.pool_r[k].clone();
            let cc = { let m = g.calls.len() as u64; g.rnd(m) as usize };
            out.push((w, cc, x));
        }
    }
    out
}

fn main() {
    quiet_panics();
    harness::logs::capture_logs();
    let a: Vec<String> = std::env::args().collect();
    let inp = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let scs: Vec<Value> = inp.lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect();
    let par: usize = a[3].parse().unwrap();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_all().build().unwrap();
    let out = rt.block_on(async {
        let sem = Arc::new(tokio::sync::Semaphore::new(par));
        let hs: Vec<_> = scs
            .into_iter()
            .map(|s| {
                let sem = sem.clone();
                tokio::spawn(async move {
                    let _p = sem.acquire().await.unwrap();
                    session(s).await
                })
            })
            .collect();
        let mut out = vec![];
        for h in hs {
            out.push(h.await.unwrap());
        }
        out
    });
    let mut f = BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for r in out {
        writeln!(f, "{r}").unwrap();
    }
    f.flush().unwrap();
    std::process::exit(0);
}
