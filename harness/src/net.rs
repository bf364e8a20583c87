//! Runs a real server under a script and records what can be observed of it (events of ServerMonitor.tla).
use crate::clock;
use crate::exec::attrs_json;
use crate::ports;
use crate::util::*;
use async_trait::async_trait;
use radius::core::packet::Packet;
use radius::core::request::Request;
use radius::server::{RequestHandler, SecretProvider, SecretProviderError, Server};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::net::{SocketAddr, UdpSocket};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use tokio::sync::oneshot;

/// How long an event that has to come is waited for.
pub const LONG: Duration = Duration::from_secs(10);
pub const SENTINEL: i64 = 0;

/// Set once something that had to come did not: the other scenarios are then cut short.
pub static GIVE_UP: AtomicBool = AtomicBool::new(false);

#[derive(PartialEq)]
pub enum W {
    Held,
    TimedOut,
    Cut,
}

pub struct EndCmd {
    pub out: String,
    pub reply: Option<Vec<u8>>,
}

#[derive(Default)]
pub struct State {
    pub ev: Vec<Value>,
    pub srcs: HashMap<SocketAddr, i64>,
    pub secrets: HashMap<i64, Value>,
    gates: HashMap<(i64, u8), (i64, oneshot::Sender<EndCmd>)>,
    pub handlers: i64,      // handlers invoked, without the sentinel's
    sentinels: i64,         // sentinel requests that were handled to the end
    pings: i64,
    ended: i64,
    replied: i64,
    closed: bool,
}

#[derive(Default)]
pub struct Ctl {
    pub st: Mutex<State>,
    pub cv: Condvar,
    barrier: AtomicI64,
    arrived: AtomicI64,
}

impl Ctl {
    pub fn lock(&self) -> std::sync::MutexGuard<'_, State> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn log(&self, v: Value) {
        self.lock().ev.push(v);
        self.cv.notify_all();
    }
    /// Waits until `f` holds.
    pub fn wait(&self, d: Duration, f: impl Fn(&State) -> bool) -> W {
        let end = Instant::now() + d;
        let mut g = self.lock();
        loop {
            if f(&g) {
                return W::Held;
            }
            let now = Instant::now();
            if now >= end {
                return W::TimedOut;
            }
            if d >= LONG && GIVE_UP.load(Ordering::SeqCst) {
                return W::Cut;
            }
            let step = (end - now).min(Duration::from_millis(100));
            g = self.cv.wait_timeout(g, step).unwrap_or_else(|e| e.into_inner()).0;
        }
    }
}

pub struct H(pub Arc<Ctl>);
pub struct P(pub Arc<Ctl>);

/// Tells a handler that ended from one that was dropped.
struct Life {
    ctl: Arc<Ctl>,
    h: i64,
    ended: bool,
}
impl Drop for Life {
    fn drop(&mut self) {
        if !self.ended {
            let mut g = self.ctl.lock();
            if !g.closed {
                g.ev.push(json!({"e": "aborted", "h": self.h}));
                drop(g);
                self.ctl.cv.notify_all();
            }
        }
    }
}

pub fn packet_json(p: &Packet) -> Value {
    json!({"code": p.get_code() as u8, "id": p.get_identifier(), "auth": hex(p.get_authenticator()), "secret": hex(p.get_secret()),
           "attrs": attrs_json(p), "enc": p.encode().map_or("".to_owned(), |b| hex(&b))})
}

impl H {
    /// Records the invocation; for the driver's own requests, how it ends.
    fn begin(&self, req: &Request) -> Result<(i64, i64, oneshot::Receiver<EndCmd>), Result<(), String>> {
        let p = req.get_packet();
        let id = p.get_identifier();
        let remote = req.get_remote_addr();
        let shown = packet_json(p);
        let mut g = self.0.lock();
        let src = *g.srcs.get(&remote).unwrap_or(&-1);
        if src == SENTINEL && id >= 200 {
            g.pings += 1;
            self.0.cv.notify_all();
            drop(g);
            if id == 255 {
                panic!("handler");
            }
            return Err(if id == 254 { Err("handler".to_owned()) } else { Ok(()) });
        }
        let h = g.ev.len() as i64 + 1;
        g.ev.push(json!({"e": "start", "h": h, "s": src, "p": shown, "raddr": remote.to_string(), "laddr": req.get_local_addr().to_string()}));
        self.0.cv.notify_all();
        if src == SENTINEL {
            g.ev.push(json!({"e": "end", "h": h, "out": "ok"}));
            g.sentinels += 1;
            return Err(Ok(()));
        }
        g.handlers += 1;
        let (tx, rx) = oneshot::channel();
        g.gates.insert((src, id), (h, tx));
        Ok((h, src, rx))
    }
}

#[async_trait]
impl RequestHandler<(), String> for H {
    async fn handle_radius_request(&self, conn: &tokio::net::UdpSocket, req: &Request) -> Result<(), String> {
        let remote = req.get_remote_addr();
        let (h, src, rx) = match self.begin(req) {
            Ok(x) => x,
            Err(done) => return done,
        };
        let mut life = Life { ctl: self.0.clone(), h, ended: false };
        let cmd = match rx.await {
            Ok(c) => c,
            Err(_) => EndCmd { out: "ok".into(), reply: None },
        };
        if let Some(r) = &cmd.reply {
            self.0.log(json!({"e": "reply", "h": h, "s": src, "b": hex(r), "res": "ok"}));
            let res = conn.send_to(r, remote).await;
            if res.ok() != Some(r.len()) {
                self.0.log(json!({"e": "reply", "h": h, "s": src, "b": hex(r), "res": "err"}));
            }
            self.0.lock().replied += 1;
        }
        life.ended = true;
        {
            let mut g = self.0.lock();
            g.ev.push(json!({"e": "end", "h": h, "out": cmd.out}));
            g.ended += 1;
        }
        self.0.cv.notify_all();
        match cmd.out.as_str() {
            "panic" => panic!("handler"),
            "err" => Err("handler".to_owned()),
            _ => Ok(()),
        }
    }
}

impl SecretProvider for P {
    fn fetch_secret(&self, remote: SocketAddr) -> Result<Vec<u8>, SecretProviderError> {
        let v = {
            let g = self.0.lock();
            let s = *g.srcs.get(&remote).unwrap_or(&-1);
            g.secrets.get(&s).cloned().unwrap_or(json!("err"))
        };
        let n = self.0.barrier.load(Ordering::SeqCst);
        if n > 0 {
            // a rendezvous of n tasks, so that they go on at the same moment
            self.0.arrived.fetch_add(1, Ordering::SeqCst);
            let end = Instant::now() + Duration::from_millis(100);
            while self.0.arrived.load(Ordering::SeqCst) < n && Instant::now() < end {
                std::hint::spin_loop();
            }
        }
        match v {
            Value::String(s) if s == "err" => Err(SecretProviderError::FailedFetchingError("no".into())),
            Value::String(s) if s == "generic" => Err(SecretProviderError::GenericError("no".into())),
            Value::String(s) if s == "panic" => panic!("provider"),
            o => Ok(unhex(o["ok"].as_str().unwrap())),
        }
    }
}

enum Cmd {
    Cfg(Option<bool>, Option<usize>),
    Run(oneshot::Receiver<()>),
    RunReady,
    Quit,
}

fn server_thread(ahead: &'static AtomicI64, ctl: Arc<Ctl>, host: String, rt: String, rx: tokio::sync::mpsc::UnboundedReceiver<Cmd>, tx: mpsc::Sender<Result<SocketAddr, String>>, ret: mpsc::Sender<String>) {
    clock::enrol(ahead);
    let rtm = if rt == "ct" {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(rt.parse().unwrap()).on_thread_start(move || clock::enrol(ahead)).enable_all().build().unwrap()
    };
    let mut rx = rx;
    rtm.block_on(async {
        let mut server = match Server::listen(&host, 0, H(ctl.clone()), P(ctl.clone())).await {
            Ok(s) => s,
            Err(e) => {
                let _ = tx.send(Err(e.to_string()));
                return;
            }
        };
        let _ = tx.send(server.get_listen_address().map_err(|e| e.to_string()));
        while let Some(c) = rx.recv().await {
            match c {
                Cmd::Cfg(skip, buf) => {
                    if let Some(s) = skip {
                        server.set_skip_authenticity_validation(s);
                    }
                    if let Some(b) = buf {
                        server.set_buffer_size(b);
                    }
                    let _ = ret.send("cfg".into());
                }
                Cmd::Run(trigger) => {
                    let r = server.run(trigger).await;
                    done(&ctl, r, &ret);
                }
                Cmd::RunReady => {
                    let r = server.run(async {}).await;
                    done(&ctl, r, &ret);
                }
                Cmd::Quit => break,
            }
        }
    });
    rtm.shutdown_timeout(Duration::from_millis(10));
}

fn done(ctl: &Ctl, r: Result<(), std::io::Error>, ret: &mpsc::Sender<String>) {
    ctl.log(json!({"e": "returned", "res": if r.is_ok() { "ok" } else { "err" }}));
    let _ = ret.send("returned".into());
}

/// Opens the sources' sockets: each is [ip, same-port-as or -1, and that port xor this number, ports to be tried first].
fn open_sources(list: &[Value]) -> Vec<UdpSocket> {
    'retry: for _ in 0..500 {
        let mut out: Vec<UdpSocket> = vec![];
        for s in list {
            let ip = s[0].as_str().unwrap().parse().unwrap();
            let same = s[1].as_i64().unwrap();
            if same >= 0 {
                let port = out[same as usize].local_addr().unwrap().port() ^ s[2].as_u64().unwrap_or(0) as u16;
                match ports::bind_at(ip, port) {
                    Some(u) => out.push(u),
                    None => continue 'retry,
                }
            } else {
                let named = s[3].as_array().and_then(|l| l.iter().find_map(|p| ports::bind_at(ip, p.as_u64().unwrap() as u16)));
                out.push(named.unwrap_or_else(|| ports::bind(ip)));
            }
        }
        return out;
    }
    panic!("cannot bind the sources");
}

pub fn run_scenario(sc: &Value) -> Value {
    let ctl = Arc::new(Ctl::default());
    let sid = sc["sid"].clone();
    if GIVE_UP.load(Ordering::SeqCst) {
        return json!({"sid": sid, "ev": [], "cut": true, "failed": false});
    }
    let host = sc["host"].as_str().unwrap_or("127.0.0.1").to_owned();
    let rt = sc["rt"].as_str().unwrap_or("ct").to_owned();
    let extra = Duration::from_millis(sc["settle_ms"].as_u64().unwrap_or(30));
    let socks = open_sources(sc["sources"].as_array().unwrap());
    for (i, s) in socks.iter().enumerate() {
        s.set_nonblocking(true).unwrap();
        let a = s.local_addr().unwrap();
        ctl.lock().srcs.insert(a, i as i64);
        if let std::net::IpAddr::V4(ip) = a.ip() {
            ctl.lock().srcs.insert((ip.to_ipv6_mapped(), a.port()).into(), i as i64); // as an IPv6 socket sees it
        }
    }
    let sentinel_secret = "73656e74696e656c";
    ctl.lock().secrets.insert(SENTINEL, json!({"ok": sentinel_secret}));
    ctl.log(json!({"e": "secret", "s": SENTINEL, "v": "ok", "b": sentinel_secret}));
    let (ctx, crx) = tokio::sync::mpsc::unbounded_channel();
    let (atx, arx) = mpsc::channel();
    let (rtx, rrx) = mpsc::channel();
    let ahead: &'static AtomicI64 = Box::leak(Box::new(AtomicI64::new(0)));
    let th = {
        let (ctl, host, rt) = (ctl.clone(), host.clone(), rt.clone());
        std::thread::spawn(move || server_thread(ahead, ctl, host, rt, crx, atx, rtx))
    };
    let addr = match arx.recv_timeout(LONG) {
        Ok(Ok(a)) => a,
        e => {
            ctl.log(json!({"e": "listenfailed", "why": format!("{e:?}")}));
            let ev = std::mem::take(&mut ctl.lock().ev);
            return json!({"sid": sid, "ev": ev, "cut": false, "failed": true});
        }
    };
    // a server on the wildcard address is reached through the loopback one
    let mut targets: Vec<SocketAddr> = vec![addr; socks.len()];
    if addr.ip().is_unspecified() {
        // also by IPv4 sources when the address is an IPv6 one
        for (t, s) in targets.iter_mut().zip(&socks) {
            let v4 = s.local_addr().unwrap().is_ipv4();
            t.set_ip(if v4 { "127.0.0.1".parse().unwrap() } else { "::1".parse().unwrap() });
        }
    }
    ctl.log(json!({"e": "listen", "addr": addr.to_string(), "srcs": socks.iter().map(|s| s.local_addr().unwrap().to_string()).collect::<Vec<_>>()}));
    let mut trig: Option<oneshot::Sender<()>> = None;
    let mut running = false;
    let mut sent = 0i64;
    let mut sid_no = 0u8;
    let mut flood: Option<(Arc<AtomicBool>, std::thread::JoinHandle<()>)> = None;
    // A well-known port may be sent something by others (a DNS query, say), which is no reply.
    let known: Vec<bool> = sc["sources"].as_array().unwrap().iter().map(|s| s[3].is_array()).collect();
    let stray = |i: usize, from: SocketAddr| known[i] && from != targets[i];
    let drain = |ctl: &Ctl| {
        let mut buf = vec![0u8; 65536];
        for (i, s) in socks.iter().enumerate() {
            while let Ok((n, from)) = s.recv_from(&mut buf) {
                if stray(i, from) {
                    continue;
                }
                ctl.log(json!({"e": "recv", "s": i, "b": hex(&buf[..n]), "from": (from == targets[i])}));
            }
        }
    };
    let mut send = |ctl: &Ctl, s: usize, b: &[u8]| {
        sent += 1;
        ctl.log(json!({"e": "send", "d": sent, "s": s, "b": hex(b)}));
        let _ = socks[s].send_to(b, targets[s]);
    };
    let mut failed = false; // something that had to come did not
    for op in sc["ops"].as_array().unwrap() {
        if GIVE_UP.load(Ordering::SeqCst) {
            break;
        }
        match op["op"].as_str().unwrap() {
            "secret" => {
                let s = op["s"].as_i64().unwrap();
                ctl.lock().secrets.insert(s, op["v"].clone());
                let (v, b) = match &op["v"] {
                    Value::String(x) => (x.clone(), String::new()),
                    o => ("ok".to_owned(), o["ok"].as_str().unwrap().to_owned()),
                };
                ctl.log(json!({"e": "secret", "s": s, "v": v, "b": b}));
            }
            "cfg" => {
                ctl.log(json!({"e": "cfg", "skip": op["skip"].as_bool().map_or(-1, |b| b as i64), "buf": op["buf"].as_i64().unwrap_or(-1)}));
                let _ = ctx.send(Cmd::Cfg(op["skip"].as_bool(), op["buf"].as_u64().map(|x| x as usize)));
                let _ = rrx.recv_timeout(LONG);
            }
            "run" => {
                let (t, r) = oneshot::channel();
                trig = Some(t);
                ctl.log(json!({"e": "run"}));
                let _ = ctx.send(Cmd::Run(r));
                running = true;
            }
            "runready" => {
                // runs the server with a trigger that has already completed
                ctl.log(json!({"e": "run"}));
                ctl.log(json!({"e": "trigger"}));
                let _ = ctx.send(Cmd::RunReady);
                match rrx.recv_timeout(LONG) {
                    Ok(_) => {}
                    Err(mpsc::RecvTimeoutError::Timeout) => {
                        ctl.log(json!({"e": "notreturned"}));
                        failed = true;
                        break;
                    }
                    Err(_) => ctl.log(json!({"e": "returned", "res": "panic"})),
                }
            }
            "stop" => {
                ctl.log(json!({"e": "trigger"}));
                if let Some(t) = trig.take() {
                    let _ = t.send(());
                }
                running = false;
                match rrx.recv_timeout(LONG) {
                    Ok(_) => {}
                    Err(mpsc::RecvTimeoutError::Timeout) => {
                        ctl.log(json!({"e": "notreturned"}));
                        failed = true;
                        break;
                    }
                    Err(_) => ctl.log(json!({"e": "returned", "res": "panic"})),
                }
            }
            "flood" => {
                let stop = Arc::new(AtomicBool::new(false));
                let (s2, u, t) = (stop.clone(), socks[op["s"].as_u64().unwrap() as usize].try_clone().unwrap(), targets[op["s"].as_u64().unwrap() as usize]);
                let b = unhex(op["b"].as_str().unwrap());
                let most = op["n"].as_u64().unwrap_or(u64::MAX);
                ctl.log(json!({"e": "send", "d": 0, "s": op["s"], "b": op["b"]}));
                flood = Some((
                    stop,
                    std::thread::spawn(move || {
                        let mut n = 0;
                        while n < most && !s2.load(Ordering::SeqCst) {
                            let _ = u.send_to(&b, t);
                            n += 1;
                            if most < u64::MAX && n % 50 == 0 {
                                std::thread::sleep(Duration::from_millis(1)); // so that few are lost
                            }
                        }
                    }),
                ));
            }
            "unflood" => {
                if let Some((s, h)) = flood.take() {
                    s.store(op["now"].as_bool() != Some(false), Ordering::SeqCst);
                    let _ = h.join();
                }
            }
            "ping" => {
                // unrecorded requests until one is handled: the socket buffer is empty then
                let before = ctl.lock().pings;
                let mut ok = false;
                for i in 0..100u32 {
                    let mut b = vec![1, 200 + (i % 50) as u8, 0, 20];
                    b.extend([0u8; 16]);
                    let _ = socks[0].send_to(&b, targets[0]);
                    if ctl.wait(Duration::from_millis(100), |g| g.pings > before) == W::Held {
                        ok = true;
                        break;
                    }
                }
                if !ok { ctl.log(json!({"e": "deaf"})); failed = true; }
                std::thread::sleep(extra);
            }
            "laps" => {
                // unrecorded requests, one after the other, each of which has to be handled
                let (n, mut k) = (op["n"].as_u64().unwrap(), 0);
                while k < n {
                    let before = ctl.lock().pings;
                    let mut b = vec![1, 200 + (k % 56) as u8, 0, 20];
                    b.extend([k as u8; 16]);
                    let _ = socks[0].send_to(&b, targets[0]);
                    if ctl.wait(LONG, |g| g.pings > before) != W::Held { break; }
                    k += 1;
                }
                if k < n && GIVE_UP.load(Ordering::SeqCst) { break; }
                ctl.log(json!({"e": "laps", "n": n, "handled": k}));
                failed = k < n;
            }
            "send" => send(&ctl, op["s"].as_u64().unwrap() as usize, &unhex(op["b"].as_str().unwrap())),
            "burst" => {
                // several datagrams whose tasks meet in the secret provider
                let bs = op["bs"].as_array().unwrap();
                ctl.arrived.store(0, Ordering::SeqCst);
                ctl.barrier.store(bs.len() as i64, Ordering::SeqCst);
                for b in bs {
                    send(&ctl, b[0].as_u64().unwrap() as usize, &unhex(b[1].as_str().unwrap()));
                }
                let n = bs.len() as i64;
                let end = Instant::now() + Duration::from_millis(500);
                while ctl.arrived.load(Ordering::SeqCst) < n && Instant::now() < end {
                    std::thread::yield_now();
                }
                ctl.barrier.store(0, Ordering::SeqCst);
            }
            "waitstarts" => {
                let n = op["n"].as_i64().unwrap();
                match ctl.wait(LONG, |g| g.handlers >= n) {
                    W::Held => {}
                    W::Cut => break,
                    W::TimedOut => {
                        drain(&ctl);
                        ctl.log(json!({"e": "settled"}));
                        failed = true;
                    }
                }
            }
            "end" => {
                let k = (op["s"].as_i64().unwrap(), op["id"].as_u64().unwrap() as u8);
                let gate = ctl.lock().gates.remove(&k);
                if let Some((_, tx)) = gate {
                    let before = ctl.lock().ended;
                    let reply = op["reply"].as_str().map(unhex);
                    let _ = tx.send(EndCmd { out: op["out"].as_str().unwrap().to_owned(), reply });
                    match ctl.wait(LONG, |g| g.ended > before || g.ev.iter().any(|e| e["e"] == "aborted")) {
                        W::Held => {}
                        W::Cut => break,
                        W::TimedOut => {
                            ctl.log(json!({"e": "noend"}));
                            failed = true;
                        }
                    }
                }
            }
            "recv" => {
                let i = op["s"].as_u64().unwrap() as usize;
                let mut buf = vec![0u8; 65536];
                let end = Instant::now() + LONG;
                loop {
                    if let Some((n, from)) = socks[i].recv_from(&mut buf).ok().filter(|(_, from)| !stray(i, *from)) {
                        ctl.log(json!({"e": "recv", "s": i, "b": hex(&buf[..n]), "from": (from == targets[i])}));
                        break;
                    }
                    if Instant::now() > end {
                        ctl.log(json!({"e": "noreply", "s": i}));
                        failed = true;
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(1));
                }
            }
            "advance" => {
                // much time passes for the server
                ctl.log(json!({"e": "advance", "ms": op["ms"]}));
                ahead.fetch_add(op["ms"].as_i64().unwrap(), Ordering::SeqCst);
            }
            "sleep" => std::thread::sleep(Duration::from_millis(op["ms"].as_u64().unwrap())),
            "settle" => {
                let mut w = W::Held;
                if running {
                    let before = ctl.lock().sentinels;
                    sid_no = (sid_no + 1) % 200;
                    let mut b = vec![1, sid_no, 0, 20];
                    b.extend([0u8; 16]);
                    send(&ctl, 0, &b);
                    w = ctl.wait(LONG, |g| g.sentinels > before);
                    if w == W::Cut { break; }
                }
                std::thread::sleep(extra);
                drain(&ctl);
                ctl.log(json!({"e": "settled"}));
                if w == W::TimedOut { failed = true; }
            }
            o => panic!("unknown op {o}"),
        }
        if failed {
            break;
        }
    }
    if failed {
        GIVE_UP.store(true, Ordering::SeqCst);
    }
    let cut = !failed && GIVE_UP.load(Ordering::SeqCst);
    if let Some((s, h)) = flood.take() {
        s.store(true, Ordering::SeqCst);
        let _ = h.join();
    }
    drain(&ctl);
    let ev = {
        let mut g = ctl.lock();
        g.closed = true;
        std::mem::take(&mut g.ev)
    };
    drop(trig);
    let _ = ctx.send(Cmd::Quit);
    // the server is left running in its thread if it does not stop
    if th.is_finished() { let _ = th.join(); }
    json!({"sid": sid, "ev": ev, "cut": cut, "failed": failed})
}

pub fn run_all(scs: Vec<Value>, par: usize) -> Vec<Value> {
    let n = scs.len();
    let work = Arc::new(Mutex::new(scs.into_iter().enumerate().collect::<Vec<_>>().into_iter()));
    let out = Arc::new(Mutex::new(vec![Value::Null; n]));
    let hs: Vec<_> = (0..par)
        .map(|_| {
            let (work, out) = (work.clone(), out.clone());
            std::thread::spawn(move || loop {
                let item = work.lock().unwrap().next();
                let Some((i, sc)) = item else { break };
                let r = run_scenario(&sc);
                out.lock().unwrap()[i] = r;
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    Arc::try_unwrap(out).unwrap().into_inner().unwrap()
}
