//! Simulation of the real control client, and of the daemon it talks to (C21).
use crate::host::{Ran, Server};
use crate::plan::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Write;
use vcore::*;

pub struct ClientSim;

#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Plan {
    pub base: Base,
    /// directory of the socket: form in which it is written
    pub dir: u64,
    /// connect, text, badid, badaddress, badtext
    pub what: String,
    pub id: u64,
    pub addr: u64,
    pub len: u64,
    pub seed: u64,
    /// 0 no socket, 1 nobody listens, 2 a peer, 3 only the first connection breaks
    pub peer: u64,
    /// bytes after which the connection breaks, plus one; 0: never
    pub cap: u64,
    pub kill: u64,
    pub faults: Vec<Flt>,
    /// hand the bytes to a daemon
    pub daemon: bool,
    pub node: Base,
}

const DIRS: [&str; 5] = ["/vsim/data", "/vsim/data/", "/vsim/./data", "/vsim/d a\u{e9}", "/"];
fn identity(i: u64) -> [u8; 32] {
    let mut b = [0u8; 32];
    match i {
        0 => (),
        1 => b = [255; 32],
        _ => b.copy_from_slice(&Rng::new(i).bytes(32)),
    }
    b
}
fn base64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            o.push(if k <= c.len() { A[(n >> (18 - 6 * k) & 63) as usize] as char } else { '=' });
        }
    }
    o
}
fn id_text(i: u64) -> String {
    let mut b = vec![0];
    b.extend(identity(i));
    base64(&b)
}
/// an address: argument, encoding, form in the daemon's trace
fn address(a: u64) -> (String, Vec<u8>, String) {
    let mut r = Rng::new(a / 4);
    let port = *r.pick(&[0u64, 1, 9, 80, 7001, 65535, 0x1234]);
    let port = if port == 0x1234 { r.below(65536) } else { port };
    let mut b = vec![];
    if a % 4 == 3 {
        let mut ip = [0u8; 16];
        match r.below(4) {
            0 => ip[15] = 1,
            1 => {
                ip[10] = 255;
                ip[11] = 255;
                ip[12..].copy_from_slice(&r.bytes(4))
            }
            _ => ip.copy_from_slice(&r.bytes(16)),
        }
        let x = std::net::Ipv6Addr::from(ip);
        b.extend(1u32.to_le_bytes());
        b.extend(ip);
        b.extend((port as u16).to_le_bytes());
        (format!("[{}]:{}", x, port), b, format!("6|{}|{}", hex(&ip), port))
    } else {
        let ip: [u8; 4] = if r.chance(200) { *r.pick(&[[0; 4], [127, 0, 0, 1], [255; 4]]) } else { [10, 1, r.below(256) as u8, r.below(256) as u8] };
        b.extend(0u32.to_le_bytes());
        b.extend(ip);
        b.extend((port as u16).to_le_bytes());
        (format!("{}.{}.{}.{}:{}", ip[0], ip[1], ip[2], ip[3], port), b, format!("4|{}|{}", hex(&ip), port))
    }
}
fn letters(seed: u64, len: u64) -> String {
    let mut r = Rng::new(seed);
    if len < 12 && r.chance(300) {
        return r.pick(&["", "-", "--", "--help", "-V", "=", "\n", "'\"\\", "connect", "\u{feff}"]).to_string();
    }
    let wide = r.chance(300);
    let mut s = String::new();
    while (s.len() as u64) < len {
        s.push(if wide {
            *r.pick(&['a', ' ', '\n', '\u{e9}', '\u{4e2d}', '\u{1f600}', '\t', '\u{1}'])
        } else {
            (b' ' + r.below(95) as u8) as char
        });
    }
    s
}
impl Plan {
    fn args(&self) -> Vec<Vec<u8>> {
        let mut v: Vec<Vec<u8>> = vec![b"--path".to_vec(), DIRS[self.dir as usize % DIRS.len()].into()];
        let mut r = Rng::new(self.seed);
        match self.what.as_str() {
            "connect" => v.extend([b"connect".to_vec(), id_text(self.id).into(), address(self.addr).0.into()]),
            "badaddress" => {
                let a = address(self.addr).0;
                let x = match r.below(6) {
                    0 => "".into(),
                    1 => a.rsplit_once(':').map(|x| x.0.to_string()).unwrap_or_default(),
                    2 => format!("{}9999", a),
                    3 => format!("localhost:{}", r.below(65536)),
                    4 => a.replace('.', ".."),
                    _ => format!("{} ", a),
                };
                let x = if x.parse::<std::net::SocketAddr>().is_ok() { "10.1.1:3".to_string() } else { x };
                v.extend([b"connect".to_vec(), id_text(self.id).into(), x.into()])
            }
            "badid" => {
                let mut t = id_text(self.id);
                match r.below(4) {
                    0 => t.clear(),
                    1 => t.truncate(4 * r.below(11) as usize),
                    2 => t.truncate(1 + 4 * r.below(11) as usize),
                    _ => {
                        let k = r.below(t.len() as u64) as usize;
                        t.replace_range(k..k + 1, r.pick(&["*", " ", "\u{e9}", "-"]))
                    }
                }
                if r.chance(500) {
                    v.extend([b"connect".to_vec(), t.into(), address(self.addr).0.into()])
                } else {
                    v.extend([b"send-text".to_vec(), t.into(), b"text".to_vec()])
                }
            }
            "badtext" => {
                let mut t = letters(self.seed, self.len).into_bytes();
                t.push(*r.pick(&[0xff, 0xc0, 0x80, 0xed]));
                v.extend([b"send-text".to_vec(), id_text(self.id).into(), t])
            }
            _ => v.extend([b"send-text".to_vec(), id_text(self.id).into(), letters(self.seed, self.len).into()]),
        }
        v
    }
    /// the encoding of the command
    fn bytes(&self) -> Vec<u8> {
        let mut b = vec![];
        if self.what == "connect" {
            b.extend(0u32.to_le_bytes());
            b.extend(identity(self.id));
            b.extend(address(self.addr).1);
        } else {
            let t = letters(self.seed, self.len);
            b.extend(1u32.to_le_bytes());
            b.extend(identity(self.id));
            b.extend((t.len() as u64).to_le_bytes());
            b.extend(t.as_bytes());
        }
        b
    }
    fn wrong(&self) -> bool {
        self.what.starts_with("bad")
    }
    /// not an argument every command line parser passes on
    fn odd(&self) -> bool {
        matches!(&self.what[..], "text" | "badtext") && letters(self.seed, self.len).starts_with('-')
    }
    fn render(&self) -> String {
        let mut o = String::new();
        self.base.render(&mut o, 100, 20_000_000);
        for a in self.args() {
            writeln!(o, "arg {}", hex(&a)).unwrap();
        }
        writeln!(o, "peer {} {}", self.peer, self.cap as i64 - 1).unwrap();
        let mut e = Evs::new();
        if self.kill > 0 {
            e.add(at::START, 1, self.kill, kind::CRASH, [0, 0, 0, 0], "");
        }
        o += &e.out;
        render_faults(&self.faults, &mut o);
        o
    }
    fn node_plan(&self, sent: &[u8]) -> String {
        let mut o = String::new();
        self.node.render(&mut o, 60, 80_000_000);
        writeln!(o, "fsmode 0").unwrap();
        for a in ["--path", "/vsim/data", "--port", "7001"] {
            writeln!(o, "arg {}", hex(a.as_bytes())).unwrap();
        }
        let mut e = Evs::new();
        let i = e.add(at::UNIXLISTEN, 1, 1_000_000, kind::UNIXCONN, [1, 0, 0, 0], "");
        if !sent.is_empty() {
            e.add(at::EVENT, i, 0, kind::DATA, [1, 1, 0, 0], &format!("x{}", hex(sent)));
        }
        e.add(at::EVENT, i, 1000, kind::EOF, [1, 1, 0, 0], "");
        e.add(at::UNIXLISTEN, 1, 8_000_000_000, kind::CRASH, [0, 0, 0, 0], "");
        o += &e.out;
        o
    }
}

pub struct Two {
    client: Server,
    node: Option<Server>,
}
impl ClientSim {
    fn go(&self, w: &mut Two, plan: &Plan) -> (Ran, Option<Ran>) {
        let r = w.client.run(&plan.render(), &[]);
        if !plan.daemon {
            return (r, None);
        }
        let sent: Vec<u8> = writes(&parse(&r.trace)).values().next().cloned().unwrap_or_default();
        if w.node.is_none() {
            w.node = Server::new("sut_node").ok();
        }
        let n = match &mut w.node {
            Some(n) => n.run(&plan.node_plan(&sent), &[]),
            None => Ran { harness: Some("no daemon".into()), ..Ran::default() },
        };
        (r, Some(n))
    }
}
fn writes(log: &[Ln]) -> BTreeMap<u64, Vec<u8>> {
    let mut m: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
    for l in log {
        if l.k == "W" {
            let h = l.arg(1).as_bytes();
            let d = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8;
            m.entry(l.num(0)).or_default().extend(h.chunks_exact(2).map(|c| d(c[0]) << 4 | d(c[1])));
        }
    }
    m
}
fn judge(plan: &Plan, r: &Ran, log: &[Ln], o: &mut Outcome) {
    for l in log {
        if matches!(l.k, "ABORT" | "FAULT") {
            o.fail("crash", format!("{} {}", l.k, l.rest()));
            return;
        }
    }
    if r.verdict == "cpu" || r.verdict.starts_with("signal") {
        o.fail("crash", r.verdict.clone());
        return;
    }
    let sent = writes(log);
    let want = plan.bytes();
    let show = |b: &[u8]| hex(&b[..b.len().min(80)]);
    if plan.wrong() {
        if !sent.is_empty() {
            o.fail("command from malformed arguments", show(sent.values().next().unwrap()));
            return;
        }
    } else {
        for b in sent.values() {
            if !want.starts_with(b) {
                let k = want.iter().zip(b).position(|(x, y)| x != y).unwrap_or(want.len());
                o.fail("wrong bytes", format!("{} bytes sent, {} expected, the first difference at {}: {} instead of {}", b.len(), want.len(), k, show(&b[k..]), show(&want[k..])));
                return;
            }
        }
    }
    let whole = sent.values().filter(|b| **b == want).count();
    if whole > 1 {
        o.fail("sent twice", format!("on {} connections", whole));
        return;
    }
    if sent.len() > 1 {
        o.fail("sent again", format!("parts of the command on {} connections", sent.len()));
        return;
    }
    let broke = log.iter().any(|l| l.k == "WERR" && l.int(1) != 4);
    o.count("connections_broken", broke as u64);
    let code = log.iter().find(|l| l.k == "EXIT").map(|l| l.int(0));
    if r.verdict == "kill" {
        return;
    }
    let Some(code) = code else {
        o.fail("no end", format!("the client does not end ({})", r.verdict));
        return;
    };
    // a panic leaves by the exit of the runtime
    if code == 0 {
        if plan.wrong() && !plan.odd() {
            o.fail("success with malformed arguments", String::new());
        } else if whole != 1 && !(plan.odd() && sent.is_empty()) {
            o.fail("false success", format!("status 0, {} of {} bytes were sent", sent.values().map(|b| b.len()).max().unwrap_or(0), want.len()));
        } else if broke {
            o.fail("false success", "status 0 although the connection broke".to_string());
        } else if whole == 1 {
            let path = std::path::Path::new(DIRS[plan.dir as usize % DIRS.len()]).join("ctrl.sock");
            let path: std::path::PathBuf = path.components().collect();
            for l in log.iter().filter(|l| l.k == "CONNECT" && l.int(2) == 0) {
                if std::path::Path::new(l.arg(1)).components().collect::<std::path::PathBuf>() != path {
                    o.fail("wrong socket", format!("{} instead of {}", l.arg(1), path.display()));
                }
            }
            o.count("commands_sent", 1);
        }
        return;
    }
    o.count("failures_reported", 1);
    // an obstacle the client cannot overcome
    let broken = plan.peer < 2
        || (plan.cap > 0 && plan.cap - 1 < want.len() as u64)
        || plan.wrong()
        || plan.odd()
        || log.iter().any(|l| l.k == "F" && !(l.arg(0) == "write" && matches!(l.int(2), 0 | 4)));
    if !broken {
        o.fail("false failure", format!("status {} though a peer took everything", code));
    }
}
fn judge_node(plan: &Plan, r: &Ran, sent: &[u8], o: &mut Outcome) {
    let log = parse(&r.trace);
    account(o, r, &log);
    if o.harness_error.is_some() {
        return;
    }
    if let Some(c) = crashed(r, &log) {
        o.fail("daemon crash", c);
        return;
    }
    let took = log.iter().any(|l| l.k == "E" && l.arg(1) == "unixconn" && l.arg(3) != "refused");
    if !took {
        return;
    }
    o.count("daemon_lives", 1);
    let whole = plan.what == "connect" && sent == plan.bytes();
    let got: Vec<String> = log.iter().filter(|l| l.k == "CONNECT" && l.arg(0) != "u").map(|l| format!("{}|{}|{}", l.arg(0), l.arg(1), l.arg(2))).collect();
    let want: Vec<String> = if whole { vec![address(plan.addr).2] } else { vec![] };
    if got != want {
        o.fail("daemon decodes another command", format!("it connects to {:?}, asked for {:?}", got, want));
    } else if whole {
        o.count("commands_decoded", 1);
    }
}

impl Sim for ClientSim {
    type Plan = Plan;
    type Worker = Two;
    fn worker(&self) -> Result<Two, String> {
        Ok(Two { client: Server::new("sut_client")?, node: None })
    }
    fn generate(&self, r: &mut Rng, _idx: u64, tier: Tier) -> Plan {
        let what = match r.below(20) {
            0..=9 => "connect",
            10..=16 => "text",
            17 => "badid",
            18 => "badaddress",
            _ => "badtext",
        };
        let len = match r.below(20) {
            0..=9 => r.below(40),
            10..=16 => r.below(2000),
            17..=18 => r.below(20_000),
            _ => r.below(if tier == Tier::Thorough { 400_000 } else { 90_000 }),
        };
        let ids = if r.chance(200) { 2 } else { 1 << 40 };
        let mut p = Plan {
            base: Base::random(r, 1500),
            dir: if r.chance(600) { 0 } else { r.below(DIRS.len() as u64) },
            what: what.into(),
            id: r.below(ids),
            addr: r.below(1 << 30),
            len,
            seed: r.next() >> 1,
            peer: 2,
            ..Plan::default()
        };
        let size = p.bytes().len() as u64;
        match r.below(20) {
            0 => p.peer = 0,
            1 => p.peer = 1,
            2..=6 => {
                p.cap = 1 + r.below(size + 2);
                p.peer = *r.pick(&[2, 2, 3]);
            }
            7 => p.kill = 1 + r.below(200_000),
            _ => (),
        }
        if r.chance(600) {
            for _ in 0..r.range(1, 6) {
                let (class, errs): (&str, &[i64]) = match r.below(12) {
                    0..=8 => ("write", &[4, 4, 0, 0, 0, 0]),
                    9 => ("write", &[32, 104, 105, 12, 5]),
                    10 => ("connect", &[111, 13, 4, 11, 2]),
                    _ => ("socket", &[24, 23, 12]),
                };
                let last = if class == "write" { *r.pick(&[12, 45]) } else { 1 };
                p.faults.push(Flt { class: class.into(), nth: r.range(1, last), err: *r.pick(errs), arg: if r.chance(700) { r.range(1, 8) } else { r.range(1, size.max(2)) } });
            }
            if r.chance(100) {
                // interrupted, or split, over and over
                let (n, e) = (r.range(1, 36), *r.pick(&[4, 0]));
                for k in 0..r.range(5, 60) {
                    p.faults.push(Flt { class: "write".into(), nth: n + k, err: e, arg: r.range(1, 3) });
                }
            }
        }
        if !p.wrong() && size < 30_000 && r.chance(120) {
            p.daemon = true;
            p.node = Base::random(r, 12_000);
            p.node.gap = *r.pick(&[300, 1000, 5000]);
        }
        p
    }
    fn run(&self, w: &mut Two, plan: &Plan) -> Outcome {
        let (r, n) = self.go(w, plan);
        let mut o = Outcome::default();
        let log = parse(&r.trace);
        account(&mut o, &r, &log);
        if o.harness_error.is_none() {
            judge(plan, &r, &log, &mut o);
            let sent = writes(&log);
            o.nontrivial = !sent.is_empty() || log.iter().any(|l| l.k == "F") || log.iter().any(|l| l.k == "EXIT" && l.int(0) != 0);
            // the bytes are part of what distinguishes one run from another
            let mut h = Hash64::default();
            h.num(o.state_hash);
            for b in sent.values() {
                h.add(b);
            }
            o.state_hash = h.get();
            if let Some(n) = n {
                judge_node(plan, &n, sent.values().next().map(|b| &b[..]).unwrap_or(&[]), &mut o);
            }
        }
        o
    }
    fn concrete(&self, w: &mut Two, plan: &Plan) -> Plan {
        let mut p = plan.clone();
        let (r, n) = self.go(w, plan);
        p.base.explicit(&r.devs);
        if let Some(n) = n {
            p.node.explicit(&n.devs);
        }
        p
    }
    fn rule(&self) -> String {
        "Each run: the real client with a command line of its own (any identity, IPv4/IPv6 address and port, text of 0-90 KB incl. multi-byte and control characters, or malformed arguments; five forms of the directory), a missing, refusing or accepting peer, a connection that breaks after a drawn number of bytes (in a third of these a further one would not), writes that are split at drawn lengths, interrupted or fail, failures of socket and connect, a kill; in about 1 of 9 runs with well-formed arguments what was sent is handed to a simulated run of the real daemon, whose connection attempt is compared with the request. The bytes sent are compared with an independent encoding. non-trivial: bytes were sent, a fault was met or a failure was reported; distinct by the sequence of (thread, observable step) and the bytes.".into()
    }
    fn expected_counters(&self) -> Vec<&'static str> {
        vec!["fault.write.short", "fault.write.EINTR", "fault.write.EPIPE", "fault.write.ECONNRESET", "fault.connect.ECONNREFUSED", "fault.socket.EMFILE", "fault.kill", "commands_sent", "failures_reported", "commands_decoded", "connections_broken"]
    }
    fn real_components(&self) -> Vec<&'static str> {
        vec!["vru-node client (argument parsing, encoding, socket)", "vru-node daemon (decoding, TCP node)", "bincode, structopt", "std (UNIX sockets)"]
    }
    fn stub_components(&self) -> Vec<&'static str> {
        vec!["kernel: scheduling, clock, sockets, file system (simrt)", "in the client's run: the daemon's side of the socket"]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["memory allocation does not fail".into(), "a peer that neither reads nor breaks the connection is not simulated".into()]
    }
}
