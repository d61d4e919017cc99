//! What all simulated-kernel plans share: scheduling, faults, rendering, traces.
use serde::{Deserialize, Serialize};
use std::fmt::Write;
use vcore::*;

#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Dev {
    pub p: u64,
    pub t: u64,
}
/// how threads are scheduled, and the seeds
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Base {
    pub seed: u64,
    pub rseed: u64,
    /// 0 in turns, with the listed deviations; 1 random; 2 priorities with change points
    pub mode: u64,
    pub gap: u64,
    pub wake: u64,
    pub pctn: u64,
    pub span: u64,
    pub ncpu: u64,
    pub devs: Vec<Dev>,
}
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Flt {
    pub class: String,
    pub nth: u64,
    /// errno; 0 short; -1 spurious readiness
    pub err: i64,
    pub arg: u64,
}

pub const CLASSES: [&str; 29] = [
    "", "recv", "send", "poll", "epoll", "accept", "read", "write", "socket", "bind", "listen", "connect", "open", "pwrite", "pread", "fsync", "trunc",
    "flock", "mkdir", "unlink", "readdir", "sfr", "eventfd", "epcreate", "epctl", "stat", "rename", "stdout", "thread",
];
#[allow(dead_code)]
pub mod at {
    pub const START: u64 = 0;
    pub const UDPBIND: u64 = 1;
    pub const TCPLISTEN: u64 = 2;
    pub const UNIXLISTEN: u64 = 3;
    pub const FSOP: u64 = 5;
    pub const DRIVER: u64 = 7;
    pub const LINE: u64 = 9;
    #[allow(dead_code)]
    pub const EVENT: u64 = 10;
}
#[allow(dead_code)]
pub mod kind {
    pub const UDPIN: u64 = 1;
    pub const UDPERR: u64 = 2;
    pub const TCPCONN: u64 = 3;
    pub const UNIXCONN: u64 = 4;
    pub const DATA: u64 = 5;
    pub const EOF: u64 = 6;
    pub const RST: u64 = 7;
    pub const SIGNAL: u64 = 8;
    pub const CRASH: u64 = 9;
    pub const CLOCK: u64 = 10;
    pub const STALL: u64 = 11;
    pub const DISKFULL: u64 = 12;
}

impl Base {
    pub fn random(r: &mut Rng, span: u64) -> Base {
        let mode = *r.pick(&[1, 1, 1, 1, 2, 2, 0]);
        Base {
            seed: r.next() >> 1,
            rseed: r.next() >> 1,
            mode,
            gap: *r.pick(&[8, 30, 100, 300, 1000, 5000]),
            wake: *r.pick(&[0, 10, 30, 60, 100]),
            pctn: r.range(1, 9),
            span,
            ncpu: *r.pick(&[1, 2, 4, 8]),
            devs: vec![],
        }
    }
    pub fn render(&self, o: &mut String, horizon_s: u64, points: u64) {
        writeln!(o, "seed {} {}", self.seed, self.rseed).unwrap();
        writeln!(o, "horizon {}", horizon_s * 1_000_000_000).unwrap();
        writeln!(o, "points {}", points).unwrap();
        writeln!(o, "ncpu {}", self.ncpu.max(1)).unwrap();
        writeln!(o, "sched {} {} {} {} {}", self.mode, self.gap, self.wake, self.pctn, self.span).unwrap();
        if self.mode == 0 {
            for d in &self.devs {
                writeln!(o, "dev {} {}", d.p, d.t).unwrap();
            }
        }
    }
    pub fn explicit(&mut self, devs: &Option<Vec<(u64, u64)>>) {
        if self.mode != 0 {
            if let Some(d) = devs {
                self.mode = 0;
                self.devs = d.iter().map(|&(p, t)| Dev { p, t }).collect();
                self.gap = 0;
                self.wake = 0;
                self.pctn = 0;
                self.span = 0;
            }
        }
    }
}
pub fn render_faults(f: &[Flt], o: &mut String) {
    for f in f {
        if let Some(c) = CLASSES.iter().position(|c| *c == f.class && !c.is_empty()) {
            writeln!(o, "flt {} {} {} {}", c, f.nth, f.err, f.arg).unwrap();
        }
    }
}
pub struct Evs {
    pub n: u64,
    pub out: String,
}
impl Evs {
    pub fn new() -> Evs {
        Evs { n: 0, out: String::new() }
    }
    /// returns the event's index
    pub fn add(&mut self, base: u64, nth: u64, delay_ns: u64, kind: u64, a: [u64; 4], data: &str) -> u64 {
        let i = self.n;
        self.n += 1;
        writeln!(self.out, "ev {} {} {} {} {} {} {} {} {} {}", i, base, if base == at::EVENT { nth } else { nth.max(1) }, delay_ns, kind, a[0], a[1], a[2], a[3], data).unwrap();
        i
    }
}

// ------------------------------------------------------------------ traces
pub struct Ln<'a> {
    pub t: u64,
    pub tid: i64,
    pub k: &'a str,
    pub a: Vec<&'a str>,
}
impl<'a> Ln<'a> {
    pub fn arg(&self, i: usize) -> &'a str {
        self.a.get(i).copied().unwrap_or("")
    }
    pub fn num(&self, i: usize) -> u64 {
        self.arg(i).parse().unwrap_or(0)
    }
    pub fn int(&self, i: usize) -> i64 {
        self.arg(i).parse().unwrap_or(0)
    }
    /// everything after the kind, unsplit
    pub fn rest(&self) -> String {
        self.a.join("|")
    }
}
pub fn parse(t: &str) -> Vec<Ln<'_>> {
    t.lines()
        .filter_map(|l| {
            let mut p = l.split('|');
            let t = p.next()?.parse().ok()?;
            let tid = p.next()?.parse().ok()?;
            let k = p.next()?;
            Some(Ln { t, tid, k, a: p.collect() })
        })
        .collect()
}

/// counters and fingerprints every trace yields
pub fn account(o: &mut Outcome, r: &crate::host::Ran, log: &[Ln]) {
    let mut s = Hash64::default();
    s.num(o.state_hash);
    for l in log {
        match l.k {
            "F" => {
                let e = l.int(2);
                let what = if e == 0 { "short".into() } else if e == -1 { "spurious".into() } else { errno_name(e) };
                o.count(&format!("fault.{}.{}", l.arg(0), what), 1)
            }
            "E" => {
                let k = l.arg(1);
                if l.a.iter().any(|a| *a == "refused") {
                    o.count("event.refused", 1)
                } else {
                    o.count(&format!("event.{}", if k.is_empty() { "?" } else { k }), 1)
                }
            }
            "SIGH" => o.count("fault.signal.delivered", 1),
            "POWER" => o.count("fault.power_loss", 1),
            "ABORTED" => o.count("fault.connection_aborted", 1),
            _ => {}
        }
        if !matches!(l.k, "J" | "TNEW" | "TNAME" | "OUT" | "ALIVE") {
            s.add(l.k.as_bytes());
            s.num(l.tid as u64);
        }
    }
    if r.verdict == "kill" {
        o.count("fault.kill", 1);
    }
    o.count(&format!("end.{}", r.verdict), 1);
    o.count("thread_switches", r.switches);
    o.count("scheduling_points", r.points);
    o.state_hash = s.get();
    let mut h = Hash64::default();
    h.num(o.log_hash);
    h.add(r.trace.as_bytes());
    o.log_hash = h.get();
    o.sim_ns += r.now_ns;
    if let Some(e) = &r.harness {
        o.harness_error = Some(e.clone());
    }
    let n = log.len();
    let lines: Vec<&str> = r.trace.lines().collect();
    if n <= 700 {
        o.log.extend(lines.iter().map(|s| s.to_string()));
    } else {
        o.log.extend(lines[..350].iter().map(|s| s.to_string()));
        o.log.push(format!(".. {} lines ..", lines.len() - 700));
        o.log.extend(lines[lines.len() - 350..].iter().map(|s| s.to_string()));
    }
}
pub fn errno_name(e: i64) -> String {
    match e {
        1 => "EPERM".into(),
        2 => "ENOENT".into(),
        4 => "EINTR".into(),
        5 => "EIO".into(),
        11 => "EAGAIN".into(),
        12 => "ENOMEM".into(),
        13 => "EACCES".into(),
        23 => "ENFILE".into(),
        24 => "EMFILE".into(),
        28 => "ENOSPC".into(),
        32 => "EPIPE".into(),
        71 => "EPROTO".into(),
        90 => "EMSGSIZE".into(),
        98 => "EADDRINUSE".into(),
        99 => "EADDRNOTAVAIL".into(),
        101 => "ENETUNREACH".into(),
        103 => "ECONNABORTED".into(),
        104 => "ECONNRESET".into(),
        105 => "ENOBUFS".into(),
        111 => "ECONNREFUSED".into(),
        113 => "EHOSTUNREACH".into(),
        e => format!("errno{}", e),
    }
}
/// a panic, abort, memory fault or endless loop of the program under test
pub fn crashed(r: &crate::host::Ran, log: &[Ln]) -> Option<String> {
    if let Some(i) = log.iter().position(|l| (l.k == "ERR" || l.k == "OUT") && l.rest().contains("panicked at")) {
        let mut s = log[i].rest();
        if let Some(n) = log.get(i + 1) {
            if n.k == log[i].k {
                s += " ";
                s += &n.rest();
            }
        }
        return Some(s);
    }
    for l in log {
        match l.k {
            "ABORT" => return Some(format!("abort at {} us in thread {}", l.t, l.tid)),
            "FAULT" => return Some(format!("memory fault, signal {} at {} us in thread {}", l.arg(0), l.t, l.tid)),
            _ => {}
        }
    }
    if r.verdict == "cpu" {
        return Some("endless loop without a scheduling point".into());
    }
    if r.verdict.starts_with("signal") {
        return Some(format!("ended by {}", r.verdict));
    }
    None
}
pub fn hexip(ip: u64) -> String {
    format!("{:08x}", ip)
}
pub fn dotted(ip: u64) -> String {
    format!("{}.{}.{}.{}", ip >> 24 & 255, ip >> 16 & 255, ip >> 8 & 255, ip & 255)
}
pub fn lines_of_drv(o: &mut String, ops: &[String]) {
    for x in ops {
        writeln!(o, "drv {}", x).unwrap();
    }
}
/// addresses to connect to: ordinary ones, and those with a form or a meaning of their own
pub fn ipv4(n: u64) -> u32 {
    let n = n as u32;
    match n % 9 {
        6 => 0x7f000000 + n,
        7 => 0xe0000000 + n,
        8 => [0, 0xffff_ffff, 0xc0a8_0000 + n, 0xa9fe_0000 + n][(n / 9 % 4) as usize],
        _ => 0x0a01_0000 + n,
    }
}
pub fn ipv6(n: u64) -> [u8; 16] {
    let mut ip = [0u8; 16];
    ip[12..].copy_from_slice(&(n as u32).to_be_bytes());
    match n % 8 {
        // as an IPv4 address is mapped, compatible, translated
        0 => {
            ip[10..12].fill(0xff);
            ip[12..].copy_from_slice(&ipv4(n / 8).to_be_bytes())
        }
        // the loopback one is among them
        1 => (),
        2 => ip[..4].copy_from_slice(&[0, 0x64, 0xff, 0x9b]),
        3 => ip[..2].copy_from_slice(&[0xfe, 0x80]),
        4 => ip[..2].copy_from_slice(&[0xff, 2]),
        5 => ip[..14].fill(0xff),
        6 => ip[12..].copy_from_slice(&ipv4(n / 8).to_be_bytes()),
        _ => ip[0] = 0xfd,
    }
    ip
}
/// length of a text to send
pub fn text_length(r: &mut Rng) -> u64 {
    match r.below(10) {
        0 => 0,
        1 => *r.pick(&[255, 256, 1279, 1280, 4096, 65535, 65536, 1 << 20]),
        2 => r.below(3000),
        3 => r.below(200_000),
        _ => 5,
    }
}
