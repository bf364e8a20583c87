//! client SESSIONS OUT PAR: exchanges of the real client with a scripted server; see spec/TraceClient.tla for the events.
use harness::clock;
use harness::exec::attrs_json;
use harness::ports;
use harness::tap;
use harness::util::*;
use radius::client::{Client, ClientError};
use radius::core::avp::AVP;
use radius::core::code::Code;
use radius::core::packet::Packet;
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};
use std::io::{BufRead, BufWriter, Write};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::net::UdpSocket;

type Log = Arc<Mutex<Vec<Value>>>;
fn log(l: &Log, v: Value) {
    l.lock().unwrap().push(v);
}
fn ms(v: &Value) -> Option<Duration> {
    v.as_u64().map(Duration::from_millis)
}

/// A datagram made from the request q as the script says.
fn forge(q: &[u8], secret: &[u8], a: &Value) -> Vec<u8> {
    if let Some(r) = a["raw"].as_str() {
        return unhex(r);
    }
    if a["echo"].as_bool() == Some(true) {
        return q.to_vec();
    }
    let mut body = vec![];
    for av in a["attrs"].as_array().unwrap_or(&vec![]) {
        let v = unhex(av[1].as_str().unwrap());
        body.extend([av[0].as_u64().unwrap() as u8, (v.len() + 2) as u8]);
        body.extend(v);
    }
    if let Some(b) = a["body"].as_str() {
        body = unhex(b);
    }
    let n = a["len"].as_u64().unwrap_or(20 + body.len() as u64) as u16;
    let id = q[1].wrapping_add(a["id"].as_u64().unwrap_or(0) as u8);
    let mut out = vec![a["code"].as_u64().unwrap_or(2) as u8, id];
    out.extend(n.to_be_bytes());
    let sec = a["secret"].as_str().map(unhex).unwrap_or(secret.to_vec());
    let mid = a["mid"].as_str().map(unhex).unwrap_or(q[4..20].to_vec());
    let mut d = out.clone();
    d.extend(&mid);
    d.extend(&body);
    d.extend(&sec);
    out.extend(md5::compute(&d).0);
    out.extend(&body);
    if let Some(p) = a["pad"].as_str() {
        out.extend(unhex(p));
    }
    if let Some(f) = a["flip"].as_array() {
        let k = f[0].as_u64().unwrap() as usize % out.len();
        out[k] ^= f[1].as_u64().unwrap() as u8;
    }
    for f in a["flips"].as_array().unwrap_or(&vec![]) {
        let k = f[0].as_u64().unwrap() as usize % out.len();
        out[k] ^= f[1].as_u64().unwrap() as u8;
    }
    for f in a["swap"].as_array().unwrap_or(&vec![]) {
        out.swap(f[0].as_u64().unwrap() as usize, f[1].as_u64().unwrap() as usize);
    }
    if let Some(f) = a["put"].as_array() {
        let (k, b) = (f[0].as_u64().unwrap() as usize, unhex(f[1].as_str().unwrap()));
        out[k..k + b.len()].copy_from_slice(&b);
    }
    if let Some(n) = a["rot"].as_u64() {
        out[4..20].rotate_left(n as usize);
    }
    if let Some(c) = a["cut"].as_u64() {
        out.truncate(c as usize);
    }
    out
}

struct Peer {
    main: Arc<UdpSocket>,
    foreign: Vec<(String, Arc<UdpSocket>)>,
    early: Vec<(String, std::net::UdpSocket)>, // the same sockets
}

/// What the exchanges of a session know of one another.
#[derive(Default)]
struct Shared {
    results: Mutex<HashMap<i64, bool>>,
    told: Mutex<HashMap<i64, Vec<u8>>>, // the last answer to an exchange
    ahead: Option<&'static AtomicI64>,  // the clock of the session
    start: Option<Instant>,
}
impl Shared {
    fn at(&self) -> u64 {
        self.start.unwrap().elapsed().as_millis() as u64
    }
}

#[allow(clippy::too_many_arguments)]
async fn answer(l: Log, peer: Arc<Peer>, c: i64, q: Vec<u8>, secret: Vec<u8>, to: SocketAddr, list: Vec<Value>, sh: Arc<Shared>) {
    for a in list {
        if let Some(n) = a["advance"].as_i64() {
            // time passes; then one more turn of the runtime
            sh.ahead.expect("a session with its own clock").fetch_add(n, Ordering::SeqCst);
            tokio::time::sleep(Duration::from_millis(20)).await;
            continue;
        }
        if let Some(o) = a["until"].as_i64() {
            // only after that exchange's request has been answered or has arrived: its request comes later
            while !l.lock().unwrap().iter().any(|e| e["e"] == "peer" && e["c"] == o) {
                tokio::time::sleep(Duration::from_millis(2)).await;
            }
        }
        if let Some(d) = ms(&a["wait"]) {
            tokio::time::sleep(d).await;
        }
        if a["late"].as_bool() == Some(true) {
            // only after the exchange has ended
            while !sh.results.lock().unwrap().contains_key(&c) {
                tokio::time::sleep(Duration::from_millis(5)).await;
            }
        }
        let b = match a["replay"].as_i64() {
            Some(o) => match sh.told.lock().unwrap().get(&o) {
                Some(b) => b.clone(),
                None => continue,
            },
            None => forge(&q, &secret, &a),
        };
        sh.told.lock().unwrap().insert(c, b.clone());
        let from = a["from"].as_str().unwrap_or("peer");
        let s = if from == "peer" { &peer.main } else { &peer.foreign.iter().find(|f| f.0 == from).expect("foreign").1 };
        log(&l, json!({"e": "answer", "c": c, "from": from, "b": hex(&b), "at": sh.at()}));
        let _ = s.send_to(&b, to).await;
        tokio::time::sleep(Duration::from_millis(a["after"].as_u64().unwrap_or(0))).await;
    }
}

fn bind_peer(v6: bool) -> Peer {
    let (main, foreign) = if v6 {
        let ip = "::1".parse().unwrap();
        (ports::bind(ip), vec![("port".to_owned(), ports::bind(ip))])
    } else {
        let (ip, other) = ("127.0.0.1".parse().unwrap(), "127.0.0.2".parse().unwrap());
        let pair = || {
            let main = ports::bind(ip);
            let x = ports::bind_at(other, main.local_addr().unwrap().port())?;
            Some((main, x))
        };
        let (main, x) = (0..50).find_map(|_| pair()).expect("cannot bind the peer");
        (main, vec![("port".to_owned(), ports::bind(ip)), ("ip".to_owned(), x)])
    };
    let tk = |u: std::net::UdpSocket| {
        u.set_nonblocking(true).unwrap();
        Arc::new(UdpSocket::from_std(u).unwrap())
    };
    let early = foreign.iter().map(|f| (f.0.clone(), f.1.try_clone().unwrap())).collect();
    Peer { main: tk(main), foreign: foreign.into_iter().map(|f| (f.0, tk(f.1))).collect(), early }
}

/// The system's time, whatever the clock of this thread says.
fn real_now() -> Duration {
    std::thread::spawn(|| std::time::UNIX_EPOCH.elapsed().unwrap()).join().unwrap()
}
/// Waits for f, at most for d of the system's time.
async fn in_time<F: std::future::Future>(d: Duration, f: F) -> Option<F::Output> {
    let (tx, rx) = tokio::sync::oneshot::channel::<()>();
    let (done, over) = std::sync::mpsc::channel::<()>();
    std::thread::spawn(move || {
        let _ = over.recv_timeout(d);
        let _ = tx.send(());
    });
    let r = tokio::select! { biased; x = f => Some(x), _ = rx => None };
    let _ = done.send(());
    r
}

async fn session(s: Value, ahead: Option<&'static AtomicI64>) -> Value {
    let l: Log = Default::default();
    let peer = Arc::new(bind_peer(s["v6"].as_bool() == Some(true)));
    let addr = peer.main.local_addr().unwrap();
    let closed = ports::bind(addr.ip()).local_addr().unwrap();
    let calls: Vec<Value> = s["calls"].as_array().unwrap().clone();
    let sh = Arc::new(Shared { ahead, start: Some(Instant::now()), ..Default::default() });
    // what the client sends, wherever it arrives
    let ids: Vec<(u8, i64)> = calls.iter().map(|c| (c["id"].as_u64().unwrap() as u8, c["c"].as_i64().unwrap())).collect();
    let tapped: tap::Tap = {
        let (l, sh) = (l.clone(), sh.clone());
        Arc::new(move |b| {
            let done = sh.results.lock().unwrap();
            let mine: Vec<i64> = ids.iter().filter(|x| b.len() > 1 && x.0 == b[1]).map(|x| x.1).collect();
            let c = mine.iter().find(|c| !done.contains_key(c)).or(mine.last()).copied().unwrap_or(0);
            drop(done);
            log(&l, json!({"e": "tx", "c": c, "b": hex(b)}));
        })
    };
    tap::set(addr, tapped.clone());
    tap::set(closed, tapped);
    // identifier -> (exchange, secret, answers) in order; only the exchanges of a sequential session share identifiers
    let mut book: HashMap<u8, VecDeque<(i64, Vec<u8>, Vec<Value>)>> = HashMap::new();
    for c in &calls {
        let q = book.entry(c["id"].as_u64().unwrap() as u8).or_default();
        assert!(q.is_empty() || s["seq"].as_bool() == Some(true));
        q.push_back((c["c"].as_i64().unwrap(), unhex(c["secret"].as_str().unwrap()), c["answers"].as_array().unwrap().clone()));
    }
    let all = s["all"].as_bool() == Some(true); // answer only when every request has arrived
    let n = calls.len();
    let plisten = {
        let (l, peer, sh) = (l.clone(), peer.clone(), sh.clone());
        tokio::spawn(async move {
            let mut buf = vec![0u8; 65536];
            let mut held = vec![];
            loop {
                let Ok((k, from)) = peer.main.recv_from(&mut buf).await else { continue };
                let q = buf[..k].to_vec();
                // the next exchange of this identifier, or again the last one
                let job = match if k >= 20 { book.get_mut(&q[1]) } else { None } {
                    Some(d) if d.len() > 1 && sh.results.lock().unwrap().contains_key(&d[0].0) => {
                        d.pop_front();
                        d.front().cloned()
                    }
                    Some(d) => d.front().cloned(),
                    None => None,
                };
                match job {
                    None => log(&l, json!({"e": "peer", "c": 0, "b": hex(&q)})),
                    Some((c, secret, list)) => {
                        let mut g = l.lock().unwrap();
                        let again = g.iter().any(|e| e["e"] == "peer" && e["c"] == c);
                        g.push(json!({"e": "peer", "c": c, "b": hex(&q)}));
                        drop(g);
                        if again {
                            continue;
                        }
                        let job = (c, q, secret, from, list);
                        if all {
                            held.push(job);
                            if held.len() < n {
                                continue;
                            }
                            held.sort_by_key(|j| j.1[1].wrapping_mul(151)); // some other order
                            for (c, q, secret, from, list) in held.drain(..) {
                                tokio::spawn(answer(l.clone(), peer.clone(), c, q, secret, from, list, sh.clone()));
                            }
                        } else {
                            let (c, q, secret, from, list) = job;
                            tokio::spawn(answer(l.clone(), peer.clone(), c, q, secret, from, list, sh.clone()));
                        }
                    }
                }
            }
        })
    };
    let client = Arc::new(Client::new(ms(&s["ct"]), ms(&s["st"])));
    let st = s["st"].as_i64().unwrap_or(-1);
    let mut tasks = vec![];
    for c in calls {
        let (l2, client, sh, peer2) = (l.clone(), client.clone(), sh.clone(), peer.clone());
        let to = if c["to"] == "closed" { closed } else { addr };
        let limit = c["limit"].as_u64();
        let cno = c["c"].as_i64().unwrap();
        let task = tokio::spawn(async move {
            let secret = unhex(c["secret"].as_str().unwrap());
            let mut p = Packet::new_with_identifier(Code::from(c["code"].as_u64().unwrap() as u8), &secret, c["id"].as_u64().unwrap() as u8);
            for av in c["attrs"].as_array().unwrap() {
                p.add(AVP::from_bytes(av[0].as_u64().unwrap() as u8, &unhex(av[1].as_str().unwrap())));
            }
            log(&l2, json!({"e": "call", "c": cno, "to": c["to"], "st": st, "at": sh.at(), "p": {"code": p.get_code() as u8, "id": p.get_identifier(),
                "auth": hex(p.get_authenticator()), "secret": hex(p.get_secret()), "attrs": c["attrs"]}}));
            if let Some(list) = c["early"].as_array() {
                // datagrams from elsewhere that reach the client's socket before it is connected
                let (l3, sh3, list, q, done) = (l2.clone(), sh.clone(), list.clone(), p.encode(), AtomicI64::new(0));
                let early = peer2.early.iter().map(|f| (f.0.clone(), f.1.try_clone().unwrap())).collect::<Vec<_>>();
                let hook: tap::Hook = Arc::new(move |port| {
                    if done.fetch_add(1, Ordering::SeqCst) > 0 {
                        return;
                    }
                    for a in &list {
                        let (Ok(q), from) = (&q, a["from"].as_str().unwrap()) else { continue };
                        let b = forge(q, &secret, a);
                        log(&l3, json!({"e": "answer", "c": cno, "from": from, "b": hex(&b), "at": sh3.at()}));
                        let ip = if to.is_ipv4() { std::net::IpAddr::from([127, 0, 0, 1]) } else { std::net::Ipv6Addr::LOCALHOST.into() };
                        let _ = early.iter().find(|f| f.0 == from).expect("foreign").1.send_to(&b, (ip, port));
                    }
                    std::thread::sleep(Duration::from_millis(1));
                });
                tap::before_connect(to, Some(hook));
            }
            let t = Instant::now();
            let call = tokio::spawn(async move { client.send_packet(&to, &p).await });
            let r = call.await;
            let el = t.elapsed().as_millis() as u64;
            if c["early"].is_array() {
                tap::before_connect(to, None);
            }
            let text = match &r {
                Ok(Err(e)) => hex(format!("{e} {e:?} {e:#?}").as_bytes()),
                _ => String::new(),
            };
            #[allow(unreachable_patterns)]
            let (kind, p) = match r {
                Err(_) => ("panic".to_owned(), json!({})),
                Ok(Ok(p)) => ("ok".to_owned(), json!({"code": p.get_code() as u8, "id": p.get_identifier(), "auth": hex(p.get_authenticator()),
                    "secret": hex(p.get_secret()), "attrs": attrs_json(&p)})),
                Ok(Err(e)) => (
                    match e {
                        ClientError::FailedUdpSocketBindingError(_) => "bind",
                        ClientError::FailedEstablishingUdpConnectionError(_, _) => "connect",
                        ClientError::FailedRadiusPacketEncodingError(_) => "encode",
                        ClientError::FailedSendingRadiusPacketError(_, _) => "send",
                        ClientError::FailedReceivingResponseError(_, _) => "recv",
                        ClientError::FailedDecodingRadiusResponseError(_) => "decode",
                        ClientError::ConnectionTimeoutError() => "conntimeout",
                        ClientError::SocketTimeoutError() => "timeout",
                        _ => "other",
                    }
                    .to_owned(),
                    json!({}),
                ),
            };
            log(&l2, json!({"e": "result", "c": cno, "kind": kind, "p": p, "ms": el, "text": text}));
            sh.results.lock().unwrap().insert(cno, true);
        });
        let limit = Duration::from_millis(limit.unwrap_or(st.max(0) as u64 + 10000));
        if s["seq"].as_bool() == Some(true) {
            if in_time(limit, task).await.is_none() {
                log(&l, json!({"e": "waiting", "c": cno}));
            }
            tokio::time::sleep(Duration::from_millis(s["gap"].as_u64().unwrap_or(0))).await;
        } else {
            tasks.push((cno, limit, task));
        }
    }
    let start = real_now();
    for (c, limit, t) in tasks {
        let left = limit.saturating_sub(real_now() - start);
        if in_time(left, t).await.is_none() {
            log(&l, json!({"e": "waiting", "c": c}));
        }
    }
    tokio::time::sleep(Duration::from_millis(s["linger"].as_u64().unwrap_or(60))).await;
    plisten.abort();
    tap::unset(&addr);
    tap::unset(&closed);
    let mut g = l.lock().unwrap();
    g.push(json!({"e": "over"}));
    json!({"sid": s["sid"], "ev": std::mem::take(&mut *g)})
}

fn main() {
    quiet_panics();
    harness::logs::capture_logs();
    let a: Vec<String> = std::env::args().collect();
    let inp = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let scs: Vec<Value> = inp.lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect();
    let par: usize = a[3].parse().unwrap();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_all().build().unwrap();
    let out = rt.block_on(async {
        let sem = Arc::new(tokio::sync::Semaphore::new(par));
        let hs: Vec<_> = scs
            .into_iter()
            .map(|s| {
                let sem = sem.clone();
                tokio::spawn(async move {
                    let _p = sem.acquire().await.unwrap();
                    if s["own"].as_bool() != Some(true) {
                        return session(s, None).await;
                    }
                    // a session with a clock of its own
                    tokio::task::spawn_blocking(move || {
                        std::thread::spawn(move || {
                            let ahead: &'static AtomicI64 = Box::leak(Box::new(AtomicI64::new(0)));
                            clock::enrol(ahead);
                            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                            rt.block_on(session(s, Some(ahead)))
                        })
                        .join()
                        .unwrap()
                    })
                    .await
                    .unwrap()
                })
            })
            .collect();
        let mut out = vec![];
        for h in hs {
            out.push(h.await.unwrap());
        }
        out
    });
    let mut f = BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for r in out {
        writeln!(f, "{r}").unwrap();
    }
    f.flush().unwrap();
    std::process::exit(0);
}
