//! Simulation of the real daemon over chains of lives (C15 - C20).
use crate::host::{Ran, Server};
use crate::plan::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use vcore::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Prop {
    C15,
    C16,
    C17,
    C18,
    C19,
    C20,
    C25,
    C26,
}
pub struct DaemonSim(pub Prop);

#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Ev {
    /// tcp, stall, clock, diskfull, signal, unlock
    pub what: String,
    /// start, tcp, unix
    pub from: String,
    pub delay: u64,
    pub n: u64,
    pub m: u64,
}
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Client {
    pub delay: u64,
    /// connect, local, garbage, absurd, empty, truncated, variant, address; stall, dribble, stream
    pub what: String,
    pub a: u64,
    pub id: u64,
    pub seed: u64,
    /// where its bytes are split, and how long it waits there
    pub cuts: Vec<u64>,
    pub gap: u64,
    /// eof, rst, open
    pub end: String,
    pub end_delay: u64,
}
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct End {
    /// kill, power, int, none
    pub how: String,
    /// start, fsop, line, tcp, unix
    pub from: String,
    pub nth: u64,
    pub delay: u64,
    pub cut: u64,
    pub torn: u64,
    pub seed: u64,
    /// the thread the signal lands on
    pub thread: u64,
}
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Life {
    pub base: Base,
    pub evs: Vec<Ev>,
    pub clients: Vec<Client>,
    pub faults: Vec<Flt>,
    /// another process holds the directory
    pub extlock: bool,
    /// a directory of its own, empty
    pub fresh: bool,
    pub ends: Vec<End>,
    /// a directory whose path is too long for a socket
    #[serde(default)]
    pub deep: bool,
}
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Plan {
    /// 0: the disk takes operations in order; 1: each file for itself
    pub fsmode: u64,
    pub lives: Vec<Life>,
    /// the last life, without faults
    pub last: Life,
}

fn base_of(s: &str) -> u64 {
    match s {
        "start" => at::START,
        "fsop" => at::FSOP,
        "line" => at::LINE,
        "tcp" => at::TCPLISTEN,
        _ => at::UNIXLISTEN,
    }
}
/// longest text of a command which the tests send; the limit is 1 MiB with its header
const LONGEST: u64 = 0x100000 - 3100;
/// address a command asks for: bytes in the encoding, form in the trace
fn target(a: u64) -> (Vec<u8>, String) {
    let mut b = vec![];
    let n = (a / 4 + 1) as u32;
    if a % 4 == 3 {
        b.extend(1u32.to_le_bytes());
        let ip = ipv6(n as u64);
        let port = [80, 0, 0xffff, 256][(n / 7 % 4) as usize];
        b.extend(ip);
        b.extend((port as u16).to_le_bytes());
        (b, format!("6|{}|{}", hex(&ip), port))
    } else {
        let port = if a % 4 == 2 { [9u16, 0, 0xffff, 0x1234][(n / 5 % 4) as usize] } else { 55 + (a % 4) as u16 };
        let ip = ipv4(n as u64);
        b.extend(0u32.to_le_bytes());
        b.extend(ip.to_be_bytes());
        b.extend(port.to_le_bytes());
        (b, format!("4|{:08x}|{}", ip, port))
    }
}
fn identity(i: u64) -> [u8; 32] {
    let mut b = [0u8; 32];
    for (k, x) in b.iter_mut().enumerate() {
        *x = (i as u8).wrapping_mul(29).wrapping_add(k as u8 * 3);
    }
    b
}
impl Client {
    fn bytes(&self) -> Vec<u8> {
        let mut b = vec![];
        let connect = |b: &mut Vec<u8>| {
            b.extend(0u32.to_le_bytes());
            b.extend(identity(self.id));
            b.extend(target(self.a).0);
        };
        match self.what.as_str() {
            "connect" => connect(&mut b),
            "local" => {
                b.extend(1u32.to_le_bytes());
                b.extend(identity(self.id));
                let n = self.a % 3000;
                b.extend((n + self.tail()).to_le_bytes());
                b.extend(Rng::new(self.seed).bytes(n as usize));
            }
            "garbage" => {
                b = Rng::new(self.seed).bytes((self.a % 4000) as usize + 4);
                // never a variant there is
                b[3] |= 1;
            }
            "absurd" | "stream" => {
                b.extend(1u32.to_le_bytes());
                b.extend(identity(self.id));
                let n: u64 = [u64::MAX, 1 << 62, 1 << 40, 1 << 32, 1 << 30, 0x7fff_ffff][(self.seed % 6) as usize];
                b.extend(n.to_le_bytes());
                b.extend(Rng::new(self.seed).bytes((self.a % 500) as usize));
            }
            "truncated" => {
                connect(&mut b);
                let n = 1 + self.seed as usize % (b.len() - 1);
                b.truncate(n);
            }
            "variant" => {
                connect(&mut b);
                b[(self.seed % 4) as usize] = 2 + (self.seed / 4 % 250) as u8;
            }
            "address" => {
                connect(&mut b);
                b[36 + (self.seed % 4) as usize] = 2 + (self.seed / 4 % 250) as u8;
            }
            "stall" | "dribble" => {
                connect(&mut b);
                let n = self.seed as usize % b.len();
                b.truncate(n);
            }
            _ => (),
        }
        b
    }
    /// length of the rest of its text: some are as long as a command may be
    fn tail(&self) -> u64 {
        if self.what == "local" && self.seed % 25 == 0 {
            // what is sent within two seconds, and read and parsed in them (at some 1.4 us each)
            let left = 1_750_000_000u64.saturating_sub(self.cuts.len() as u64 * self.gap + self.end_delay);
            (self.seed / 25 % LONGEST).min(left / (1600 + self.gap.min(20_000_000) / 65536))
        } else {
            0
        }
    }
    fn hostile(&self) -> bool {
        !matches!(self.what.as_str(), "connect" | "local")
    }
    /// from its connection to its last byte
    fn span(&self) -> u64 {
        let n = self.cuts.len() as u64 * self.gap;
        match self.what.as_str() {
            "dribble" => self.bytes().len() as u64 * self.gap + self.end_delay,
            "stream" => n + self.gap * (self.seed % 60) + self.end_delay,
            // to read a long command takes its time
            _ => n + self.end_delay + self.tail() / 65536 * self.gap.min(20_000_000) + self.tail() * 2000,
        }
    }
    fn render(&self, e: &mut Evs, cid: u64) {
        let i = e.add(at::UNIXLISTEN, 1, self.delay, kind::UNIXCONN, [cid, 0, 0, 0], "");
        let b = self.bytes();
        let mut t = 0;
        let put = |e: &mut Evs, t: u64, x: &[u8]| {
            if !x.is_empty() {
                e.add(at::EVENT, i, t, kind::DATA, [cid, 1, 0, 0], &format!("x{}", hex(x)));
            }
        };
        if self.what == "dribble" {
            for x in &b {
                put(e, t, &[*x]);
                t += self.gap;
            }
        } else {
            let mut cuts: Vec<usize> = self.cuts.iter().map(|c| *c as usize % (b.len() + 1)).collect();
            cuts.sort();
            let mut p = 0;
            for c in cuts {
                put(e, t, &b[p..c]);
                p = c;
                t += self.gap;
            }
            put(e, t, &b[p..]);
        }
        let mut left = self.tail();
        while left > 0 {
            let n = left.min(65536);
            t += self.gap.min(20_000_000);
            e.add(at::EVENT, i, t, kind::DATA, [cid, 1, 0, 0], &format!("r{} {}", n, left));
            left -= n;
        }
        if self.what == "stream" {
            for k in 0..self.seed % 60 {
                t += self.gap;
                e.add(at::EVENT, i, t, kind::DATA, [cid, 1, 0, 0], &format!("r65536 {}", k));
            }
        }
        t += self.end_delay;
        match self.end.as_str() {
            "eof" => {
                e.add(at::EVENT, i, t, kind::EOF, [cid, 1, 0, 0], "");
            }
            "rst" => {
                e.add(at::EVENT, i, t, kind::RST, [cid, 1, 0, 0], "");
            }
            _ => (),
        }
    }
}
impl Life {
    fn render(&self, fsmode: u64) -> String {
        let mut o = String::new();
        self.base.render(&mut o, 150, 80_000_000);
        writeln!(o, "fsmode {}", fsmode).unwrap();
        let path = match self.deep {
            true => format!("/vsim/data/{}", ["a-directory"; 9].join("/")),
            false => "/vsim/data".to_string(),
        };
        for a in ["--path", &path, "--port", "7001"] {
            writeln!(o, "arg {}", hex(a.as_bytes())).unwrap();
        }
        if self.extlock {
            writeln!(o, "extlock /vsim/data/db/db").unwrap();
        }
        let mut e = Evs::new();
        for (k, c) in self.clients.iter().enumerate() {
            c.render(&mut e, k as u64 + 1);
        }
        let mut cid = 100_000;
        for v in &self.evs {
            let b = base_of(&v.from);
            cid += 1;
            match v.what.as_str() {
                "tcp" => e.add(b, 1, v.delay, kind::TCPCONN, [cid, 0x0a030001 + v.n, 2000 + v.m, 0], ""),
                "stall" => e.add(b, 1, v.delay, kind::STALL, [v.n, v.m, 0, 0], ""),
                "clock" => e.add(b, 1, v.delay, kind::CLOCK, [v.n, 0, 0, 0], ""),
                "diskfull" => e.add(b, 1, v.delay, kind::DISKFULL, [v.n, 0, 0, 0], ""),
                _ => e.add(b, 1, v.delay, kind::SIGNAL, [2, v.n, 0, 0], ""),
            };
        }
        for n in &self.ends {
            let b = base_of(&n.from);
            match n.how.as_str() {
                "kill" => e.add(b, n.nth, n.delay, kind::CRASH, [0, 0, 0, 0], ""),
                "power" => e.add(b, n.nth, n.delay, kind::CRASH, [if fsmode == 0 || n.cut == 0 { 1 } else { 2 }, n.cut, n.torn, n.seed], ""),
                "int" => e.add(b, n.nth, n.delay, kind::SIGNAL, [2, n.thread, 0, 0], ""),
                _ => 0,
            };
        }
        o += &e.out;
        render_faults(&self.faults, &mut o);
        o
    }
}

// ------------------------------------------------------------- generation
fn kill_at(from: &str, delay: u64) -> End {
    End { how: "kill".into(), from: from.into(), nth: 1, delay, ..End::default() }
}
fn int_at(r: &mut Rng, from: &str, delay: u64) -> End {
    End { how: "int".into(), from: from.into(), nth: 1, delay, thread: r.below(13), ..End::default() }
}
fn crash_end(r: &mut Rng) -> End {
    let (from, nth, delay) = match r.below(20) {
        0..=3 => ("start", 1, r.below(1_500_000)),
        4..=10 => ("fsop", r.range(1, 16), if r.chance(500) { 0 } else { r.below(60_000) }),
        11..=13 => ("line", r.range(1, 2), if r.chance(500) { 0 } else { r.below(200_000) }),
        14..=15 => ("tcp", 1, r.below(60_000)),
        16..=18 => ("unix", 1, r.below(40_000_000)),
        _ => ("unix", 1, r.below(3_000_000_000)),
    };
    End {
        how: if r.chance(350) { "kill" } else { "power" }.into(),
        from: from.into(),
        nth,
        delay,
        cut: if r.chance(350) { 0 } else { r.range(0, 1000) },
        torn: if r.chance(500) { 0 } else { r.range(1, 1000) },
        seed: r.below(1 << 40),
        thread: 0,
    }
}
fn base(r: &mut Rng) -> Base {
    let mut b = Base::random(r, 12_000);
    b.gap = *r.pick(&[30, 100, 300, 1000, 5000, 20_000]);
    b
}
fn good(r: &mut Rng, delay: u64, a: u64) -> Client {
    let what = if r.chance(800) { "connect" } else { "local" };
    let n = match r.below(10) {
        0..=4 => 0,
        5..=7 => r.range(1, 3),
        _ => r.range(4, 40),
    };
    let gap = if n == 0 { 0 } else { r.below(*r.clone().pick(&[1000, 100_000, 20_000_000, 800_000_000])) / n };
    let mut c = Client { delay, what: what.into(), a, id: r.below(5), seed: r.below(1 << 40), cuts: vec![], gap, end: r.pick(&["eof", "eof", "open", "rst"]).to_string(), end_delay: r.below(100_000) };
    let len = c.bytes().len() as u64;
    c.cuts = (0..n).map(|_| r.below(len + 1)).collect();
    c
}
fn malformed(r: &mut Rng, delay: u64) -> Client {
    let what = r.pick(&["garbage", "absurd", "empty", "truncated", "truncated", "variant", "address"]).to_string();
    let n = r.below(4);
    let mut c = Client { delay, what, a: r.below(4000), id: 0, seed: r.below(1 << 40), cuts: vec![], gap: if n == 0 { 0 } else { r.below(600_000_000) / n }, end: r.pick(&["eof", "eof", "eof", "rst"]).to_string(), end_delay: r.below(100_000_000) };
    let len = c.bytes().len() as u64;
    c.cuts = (0..n).map(|_| r.below(len + 1)).collect();
    c
}
fn hostile(r: &mut Rng, delay: u64) -> Client {
    if r.chance(250) {
        let mut c = malformed(r, delay);
        c.end = r.pick(&["eof", "rst", "open"]).to_string();
        return c;
    }
    let what = r.pick(&["stall", "stall", "dribble", "stream", "absurd"]).to_string();
    let gap = match what.as_str() {
        "dribble" => r.range(300_000_000, 1_900_000_000),
        "stream" => r.range(1000, 400_000_000),
        _ => 0,
    };
    Client { delay, what, a: r.below(4000), id: 0, seed: r.below(1 << 40), cuts: vec![], gap, end: r.pick(&["open", "open", "open", "rst", "eof"]).to_string(), end_delay: r.below(4_000_000_000) }
}
fn service_faults(r: &mut Rng, f: &mut Vec<Flt>, many: bool) {
    for _ in 0..r.below(if many { 9 } else { 5 }) {
        let (class, errs): (&str, &[i64]) = match r.below(10) {
            0..=2 => ("poll", &[4, 4, 4, -1, -1, 12]),
            3..=5 => ("accept", &[4, 103, 24, 23, 105, 12, 11, 71]),
            6..=7 => ("read", &[4, 0, 0]),
            8 => ("epoll", &[4, -1, 12]),
            _ => ("connect", &[101, 111, 99, 113, 13]),
        };
        f.push(Flt { class: class.into(), nth: r.range(1, 25), err: *r.pick(errs), arg: r.range(1, 40) });
    }
    if r.chance(50) {
        let (class, e) = *r.pick(&[("poll", 4), ("accept", 24), ("accept", 4), ("read", 4)]);
        let n = r.range(1, 5);
        for k in 0..r.range(3, 20) {
            f.push(Flt { class: class.into(), nth: n + k, err: e, arg: 1 });
        }
    }
}
fn noise(r: &mut Rng, l: &mut Life) {
    for _ in 0..r.below(4) {
        l.evs.push(Ev { what: "tcp".into(), from: r.pick(&["tcp", "unix"]).to_string(), delay: r.below(20_000_000), n: r.below(3), m: r.below(3) });
    }
    if r.chance(100) {
        l.evs.push(Ev { what: "clock".into(), from: "unix".into(), delay: r.below(3_000_000_000), n: r.below(100_000_000_000_000), m: 0 });
    }
    if r.chance(120) {
        l.evs.push(Ev { what: "stall".into(), from: "unix".into(), delay: r.below(3_000_000_000), n: r.below(13), m: r.below(3_000_000_000) });
    }
}
impl DaemonSim {
    fn gen(&self, r: &mut Rng, tier: Tier) -> Plan {
        let deep = tier == Tier::Thorough && r.chance(300);
        let mut p = Plan { fsmode: r.below(2), ..Plan::default() };
        match self.0 {
            Prop::C15 | Prop::C20 => {
                let n = if deep { r.range(3, 12) } else { r.range(1, 4) };
                for _ in 0..n {
                    let mut l = Life { base: base(r), ..Life::default() };
                    if r.chance(150) {
                        // a stop, and perhaps a crash while it goes on
                        let d = r.below(20_000_000);
                        l.ends.push(int_at(r, "unix", d));
                        if self.0 == Prop::C20 || r.chance(500) {
                            let mut e = crash_end(r);
                            e.from = "unix".into();
                            e.nth = 1;
                            e.delay = d + r.below(2_002_000_000);
                            if r.chance(700) {
                                e.delay = d + r.below(1_000_000);
                            }
                            l.ends.push(e);
                        }
                    } else {
                        l.ends.push(crash_end(r));
                    }
                    // in case it never got there
                    l.ends.push(kill_at("start", 20_000_000_000));
                    if r.chance(200) {
                        for k in 0..r.below(3) {
                            let d = r.below(5_000_000);
                            l.clients.push(good(r, d, k * 7));
                        }
                    }
                    p.lives.push(l);
                }
                if self.0 == Prop::C15 && r.chance(60) {
                    p.lives.push(Life { base: base(r), fresh: true, ends: vec![kill_at("unix", 1_000_000)], ..Life::default() });
                }
                p.last = Life { base: base(r), ..Life::default() };
                if self.0 == Prop::C20 {
                    p.last.evs.push(Ev { what: "tcp".into(), from: "unix".into(), delay: 1_000_000, n: 200, m: 0 });
                    let mut c = good(r, 1_000_000, 400);
                    c.what = "connect".into();
                    c.cuts.clear();
                    c.end = "eof".into();
                    p.last.clients.push(c);
                    p.last.ends.push(kill_at("unix", 12_000_000_000));
                } else {
                    p.last.ends.push(kill_at("unix", 1_000_000));
                }
            }
            Prop::C16 => {
                if r.chance(450) {
                    let mut l = Life { base: base(r), ..Life::default() };
                    let d = r.below(3_000_000);
                    l.ends.push(if r.chance(500) { kill_at("unix", d) } else { int_at(r, "unix", d) });
                    p.lives.push(l);
                    if r.chance(500) {
                        p.lives.push(power_now(r));
                    }
                }
                let mut l = Life { base: base(r), ..Life::default() };
                if r.chance(150) {
                    l.extlock = true;
                    if p.lives.is_empty() || r.chance(300) {
                        l.evs.push(Ev { what: "unlock".into(), from: "start".into(), delay: u64::MAX / 2, n: 0, m: 0 });
                        l.evs.clear();
                    }
                } else {
                    let k = if r.chance(600) { 1 } else { r.range(1, 4) };
                    for _ in 0..k {
                        let (class, errs): (&str, &[i64]) = match r.below(20) {
                            0..=1 => ("open", &[5, 13, 28, 24, 30]),
                            2..=7 => ("pwrite", &[5, 28, 0, 0, 4, 122]),
                            8..=11 => ("fsync", &[5, 28, 5]),
                            12..=14 => ("sfr", &[5, 28]),
                            15 => ("trunc", &[5, 28]),
                            16 => ("mkdir", &[5, 28, 13]),
                            17 => ("pread", &[5, 0, 4]),
                            18 => *r.pick(&[("flock", &[11i64, 5, 37][..]), ("rename", &[5, 28]), ("unlink", &[5, 13])]),
                            _ => *r.pick(&[("stat", &[5i64, 13][..]), ("readdir", &[5, 13])]),
                        };
                        let (nth, err) = (r.range(1, 8), *r.pick(errs));
                        let times = if r.chance(250) { r.range(2, 12) } else { 1 };
                        for t in 0..times {
                            l.faults.push(Flt { class: class.into(), nth: nth + t, err, arg: r.range(1, 60) });
                        }
                    }
                    if r.chance(100) {
                        let d = r.below(1_300_000);
                        l.evs.push(Ev { what: "diskfull".into(), from: "start".into(), delay: d, n: 1, m: 0 });
                        if r.chance(400) {
                            l.evs.push(Ev { what: "diskfull".into(), from: "start".into(), delay: d + r.below(1_000_000_000), n: 0, m: 0 });
                        }
                    }
                }
                let d = if r.chance(500) { r.below(300_000) } else { r.below(1_500_000_000) };
                l.ends.push(End { how: "power".into(), from: "unix".into(), nth: 1, delay: d, cut: if r.chance(700) { 0 } else { r.range(0, 1000) }, torn: 0, seed: r.below(1 << 40), thread: 0 });
                p.lives.push(l);
                if r.chance(600) {
                    p.lives.push(power_now(r));
                }
                p.last = Life { base: base(r), ends: vec![kill_at("unix", 1_000_000)], ..Life::default() };
            }
            Prop::C26 => self.starts(r, &mut p),
            Prop::C17 | Prop::C18 | Prop::C19 | Prop::C25 => {
                if r.chance(100) {
                    // leaves its socket behind
                    p.lives.push(Life { base: base(r), ends: vec![kill_at("unix", r.below(3_000_000))], ..Life::default() });
                }
                let mut l = Life { base: base(r), ..Life::default() };
                noise(r, &mut l);
                match self.0 {
                    Prop::C17 => {
                        let crowd = r.chance(if tier == Tier::Quick { 12 } else { 20 });
                        let n = if crowd { r.range(1030, 1300) } else { r.range(1, 14) };
                        let span = *r.pick(&[1, 1000, 100_000, 10_000_000, 3_000_000_000]);
                        let bad = if r.chance(400) { 0 } else { 350 };
                        for k in 0..n {
                            let d = r.below(span);
                            let mut c = if !crowd && r.chance(bad) { malformed(r, d) } else { good(r, d, k) };
                            if crowd {
                                c.cuts.clear();
                                c.end = "eof".into();
                                c.gap = 0;
                                c.seed |= 1;
                                c.seed -= (c.seed % 25 == 0) as u64;
                            }
                            l.clients.push(c);
                        }
                        // the same command again
                        if r.chance(400) {
                            for k in 1..l.clients.len() {
                                let was = r.range(0, k as u64 - 1) as usize;
                                if r.chance(300) && !l.clients[k].hostile() && !l.clients[was].hostile() {
                                    let c = l.clients[was].clone();
                                    let d = &mut l.clients[k];
                                    d.what = c.what;
                                    d.a = c.a;
                                    d.id = c.id;
                                    d.seed = c.seed;
                                }
                            }
                        }
                        if !r.chance(250) {
                            service_faults(r, &mut l.faults, false);
                        }
                        if r.chance(120) {
                            for k in 0..r.range(1, 3) {
                                l.faults.push(Flt { class: "socket".into(), nth: 2 + r.range(1, 8) + k, err: *r.pick(&[24, 23, 12]), arg: 0 });
                            }
                        }
                    }
                    Prop::C25 => {
                        let span = *r.pick(&[1, 100_000, 10_000_000, 3_000_000_000]);
                        for k in 0..r.below(7) {
                            let d = r.below(span);
                            let c = if r.chance(200) { malformed(r, d) } else { good(r, d, k) };
                            l.clients.push(c);
                        }
                        for _ in 0..r.range(1, 12) {
                            let d = r.below(span);
                            l.evs.push(Ev { what: "tcp".into(), from: r.pick(&["tcp", "unix"]).to_string(), delay: d, n: r.below(3), m: r.below(3) });
                        }
                        for (chance, many) in [(25, false), (8, true)] {
                            // many at once, more in all than there are descriptors
                            if r.chance(chance) {
                                let (from, mut d, k) = (r.pick(&["tcp", "unix"]).to_string(), r.below(span), *r.pick(&[1, 30, 200]));
                                for i in 0..if many { r.range(1040, 1200) } else { r.range(20, 120) } {
                                    if many && i % k == 0 {
                                        d += r.below(2_000_000);
                                    }
                                    l.evs.push(Ev { what: "tcp".into(), from: from.clone(), delay: d + r.below(3000), n: r.below(9), m: r.below(3) });
                                }
                            }
                        }
                        if r.chance(700) {
                            service_faults(r, &mut l.faults, true);
                        }
                        for _ in 0..r.below(4) {
                            l.faults.push(Flt { class: r.pick(&["accept", "connect", "connect"]).to_string(), nth: r.range(1, 8), err: *r.pick(&[24, 23, 12, 101, 111, 113]), arg: 0 });
                        }
                    }
                    Prop::C18 => {
                        let h = r.range(1, 5);
                        let mut t = 0;
                        for _ in 0..h {
                            let mut c = hostile(r, t);
                            if r.chance(150) {
                                // or one which is merely talkative
                                c = good(r, t, 0);
                                c.what = "local".into();
                                c.seed = c.seed / 25 * 25;
                            }
                            l.clients.push(c);
                            t += r.below(*r.clone().pick(&[1000, 1_000_000, 1_000_000_000]));
                        }
                        for k in 0..r.range(1, 4) {
                            let d = r.below(t + 2_000_000);
                            let mut c = good(r, d, 4 + k);
                            c.what = "connect".into();
                            c.cuts.clear();
                            c.seed = 0;
                            l.clients.push(c);
                        }
                        if r.chance(500) {
                            service_faults(r, &mut l.faults, true);
                        }
                    }
                    _ => {
                        for k in 0..r.below(5) {
                            let d = r.below(*r.clone().pick(&[1000, 1_000_000, 1_000_000_000]));
                            let c = if r.chance(350) { hostile(r, d) } else { good(r, d, k) };
                            l.clients.push(c);
                        }
                        if r.chance(600) {
                            service_faults(r, &mut l.faults, true);
                        }
                        if r.chance(250) {
                            // connections without end, as often as the node looks
                            let gap = *r.pick(&[900_000_000, 300_000_000]);
                            let mut t = 0;
                            for k in 0..(25_000_000_000u64 / gap).min(60) {
                                t += gap / 2 + r.below(gap / 2);
                                l.evs.push(Ev { what: "tcp".into(), from: "tcp".into(), delay: t, n: k % 7, m: 1 });
                            }
                        }
                    }
                }
                if self.0 != Prop::C25 && r.chance(60) {
                    // the log goes nowhere
                    let n = r.range(1, 30);
                    for k in 0..r.range(1, 20) {
                        l.faults.push(Flt { class: "stdout".into(), nth: n + k, err: *r.pick(&[32, 32, 28, 5, 4, 0]), arg: r.range(1, 40) });
                    }
                }
                let span = l.clients.iter().map(|c| c.span().min(4_000_000_000)).sum::<u64>();
                let last = l.clients.iter().map(|c| c.delay).max().unwrap_or(0);
                if self.0 == Prop::C19 || self.0 == Prop::C25 && r.chance(500) {
                    let (from, d) = match r.below(10) {
                        0..=1 => ("tcp", r.below(60_000)),
                        2..=4 => ("unix", r.below(100_000)),
                        5..=7 => ("unix", r.below(3_000_000)),
                        _ => ("unix", r.below(6_000_000_000)),
                    };
                    l.ends.push(int_at(r, from, d));
                    if r.chance(250) {
                        let d = d + r.below(3_000_000_000);
                        l.ends.push(int_at(r, from, d));
                    }
                } else {
                    let d = last + span + 14_000_000_000 + if self.0 == Prop::C18 { 22_000_000_000 } else { 0 };
                    l.ends.push(int_at(r, "unix", d));
                }
                p.last = l;
            }
        }
        p
    }
}
impl DaemonSim {
    /// starts which cannot get what they need of the system
    fn starts(&self, r: &mut Rng, p: &mut Plan) {
        for _ in 0..r.range(1, 3) {
            let mut l = Life { base: base(r), ..Life::default() };
            if r.chance(100) {
                l.deep = true;
            }
            for _ in 0..r.below(3) {
                let (class, errs): (&str, &[i64]) = match r.below(12) {
                    0..=1 => ("bind", &[98, 13, 99, 28, 12, 2]),
                    2 => ("listen", &[98, 105]),
                    3..=4 => ("socket", &[24, 23, 12, 105]),
                    5 => ("epcreate", &[24, 23, 12]),
                    6 => ("epctl", &[28, 12]),
                    7 => ("eventfd", &[24, 23, 12]),
                    8..=9 => ("thread", &[11, 12]),
                    10 => ("unlink", &[13, 1, 30, 16]),
                    _ => *r.pick(&[("poll", &[4i64, -1, 12][..]), ("epoll", &[4, -1, 12]), ("accept", &[24, 4])]),
                };
                let (nth, err) = (r.range(1, 3), *r.pick(errs));
                // once, or as often as it is tried
                let times = if r.chance(300) && !matches!(class, "poll" | "epoll" | "accept") { 100 } else { 1 };
                for k in 0..times {
                    l.faults.push(Flt { class: class.into(), nth: nth + k, err, arg: 0 });
                }
            }
            for k in 0..r.below(3) {
                let d = r.below(3_000_000_000);
                let mut c = good(r, d, 4 + k);
                c.what = "connect".into();
                c.end = "eof".into();
                l.clients.push(c);
            }
            noise(r, &mut l);
            l.evs.retain(|e| e.what != "clock");
            match r.below(4) {
                0 => l.ends.push(kill_at("unix", r.below(3_000_000))),
                1 => {
                    let d = r.below(6_000_000_000);
                    l.ends.push(int_at(r, "unix", d))
                }
                _ => (),
            }
            l.ends.push(kill_at("start", 60_000_000_000));
            p.lives.push(l);
        }
        let mut l = Life { base: base(r), ..Life::default() };
        l.evs.push(Ev { what: "tcp".into(), from: "unix".into(), delay: 1_000_000, n: 200, m: 0 });
        let mut c = good(r, 1_000_000, 400);
        c.what = "connect".into();
        c.cuts.clear();
        c.end = "eof".into();
        l.clients.push(c);
        l.ends.push(kill_at("unix", 20_000_000_000));
        p.last = l;
    }
}
/// the machine loses power before the daemon did anything
fn power_now(r: &mut Rng) -> Life {
    Life { base: base(r), ends: vec![End { how: "power".into(), from: "start".into(), nth: 1, delay: 0, cut: 0, torn: 0, seed: r.below(1 << 40), thread: 0 }], ..Life::default() }
}

// ---------------------------------------------------------------- oracles
struct Done<'a> {
    life: &'a Life,
    r: &'a Ran,
    log: Vec<Ln<'a>>,
}
/// identities the life announced
fn announced(log: &[Ln]) -> Vec<(usize, String)> {
    let mut v = vec![];
    for (i, l) in log.iter().enumerate() {
        if l.k != "OUT" {
            continue;
        }
        let s = l.rest();
        if let Some((_, x)) = s.split_once("identity: ") {
            let t: String = x.chars().take_while(|c| c.is_ascii_alphanumeric() || "+/-_=".contains(*c)).collect();
            if t.len() == 44 {
                v.push((i, t));
            }
        }
    }
    v
}
fn listens(log: &[Ln], unix: bool) -> Option<usize> {
    log.iter().position(|l| l.k == "LISTEN" && (l.arg(0) != "tcp") == unix)
}
fn bad_end(d: &Done) -> Option<String> {
    if let Some(c) = crashed(d.r, &d.log) {
        return Some(c);
    }
    None
}
/// attempts to connect since the control socket was there: (line, address or none, error)
fn attempts<'a>(log: &'a [Ln<'a>]) -> Vec<(usize, Option<String>)> {
    let from = listens(log, true).unwrap_or(usize::MAX);
    log.iter()
        .enumerate()
        .filter(|(i, _)| *i > from)
        .filter_map(|(i, l)| match l.k {
            "CONNECT" => Some((i, Some(format!("{}|{}|{}", l.arg(0), l.arg(1), l.arg(2))))),
            "F" if l.arg(0) == "socket" && l.int(2) > 0 => Some((i, None)),
            _ => None,
        })
        .collect()
}
fn last_fault(log: &[Ln]) -> (u64, u64) {
    let (mut t, mut s) = (0, 0);
    for l in log {
        match l.k {
            "F" => t = t.max(l.t),
            "E" if l.arg(1) == "stall" => {
                s += l.num(3) / 1000;
                t = t.max(l.t + l.num(3) / 1000);
            }
            _ => {}
        }
    }
    (t, s)
}
fn sigint(log: &[Ln]) -> Option<usize> {
    log.iter().position(|l| l.k == "E" && l.arg(1) == "signal")
}

fn identities(d: &[Done], o: &mut Outcome) {
    let mut first: Option<(usize, String)> = None;
    let mut others: BTreeSet<String> = BTreeSet::new();
    for (k, x) in d.iter().enumerate() {
        let a = announced(&x.log);
        if a.len() > 1 {
            o.fail("announced twice", format!("life {} announced {} times: {:?}", k, a.len(), a.iter().map(|x| &x.1).collect::<Vec<_>>()));
        }
        for (_, id) in a {
            if x.life.fresh {
                others.insert(id);
                continue;
            }
            match &first {
                None => first = Some((k, id)),
                Some((f, i)) if *i != id => {
                    o.fail("identity changed", format!("life {} announced {}, life {} announces {}", f, i, k, id));
                    return;
                }
                _ => (),
            }
        }
    }
    if let Some((_, i)) = &first {
        o.count("identities", 1);
        if others.contains(i) {
            o.fail("identity shared", format!("two fresh directories both got {}", i));
        }
    }
    let last = d.last().unwrap();
    if o.violations.is_empty() && announced(&last.log).is_empty() {
        // known: sled takes a read error while it opens for the end of its log
        if let Some(k) = d.iter().position(erased_after_read_error) {
            o.known.push(("read-error-erases-store".into(), format!("life {} met a read error while it opened the store and erased a segment of it", k)));
            return;
        }
        o.fail("no identity", format!("the last start, without any fault, announces no identity ({}): {}", last.r.verdict, tail(&last.log)));
    }
}
/// known: sled's writer reports its error and does not wake the thread which waits for the write
fn sled_lost_wakeup(d: &Done) -> bool {
    announced(&d.log).is_empty()
        && d.log.iter().any(|l| matches!(l.k, "OUT" | "ERR") && l.rest().contains("sled::pagecache") && l.rest().contains("hit error while writing iobuf"))
        && d.log.iter().any(|l| l.k == "ALIVE" && l.num(0) == 0 && l.arg(2) == "blocked" && l.num(3) == 1)
}
fn erased_after_read_error(d: &Done) -> bool {
    let mut read = false;
    d.log.iter().any(|l| {
        read |= l.k == "F" && l.arg(0) == "pread" && l.int(2) > 0;
        read && l.k == "FS" && l.arg(0) == "write" && l.arg(1) == "/vsim/data/db/db" && l.arg(2) == "0" && l.num(3) >= 1 << 19
    })
}
fn tail(log: &[Ln]) -> String {
    log.iter().rev().filter(|l| matches!(l.k, "OUT" | "ERR")).take(2).map(|l| l.rest()).collect::<Vec<_>>().join(" / ")
}
fn c15(d: &[Done], o: &mut Outcome) {
    let n = d.iter().filter(|x| !announced(&x.log).is_empty()).count();
    o.nontrivial = d.len() > 1 && n > 0;
    identities(d, o);
}
fn c16(d: &[Done], o: &mut Outcome) {
    o.nontrivial = d.iter().any(|x| x.life.extlock || x.log.iter().any(|l| l.k == "F"));
    for x in d {
        let faulty = x.life.extlock || !x.life.faults.is_empty() || x.life.evs.iter().any(|e| e.what == "diskfull");
        // in service once the control socket listens, the last step of a start
        let t = listens(&x.log, true);
        // memory faults and aborts; a panic is a diagnostic
        for l in &x.log {
            if matches!(l.k, "ABORT" | "FAULT") {
                o.fail("crash", format!("{} {} at {} us", l.k, l.rest(), l.t));
                return;
            }
        }
        if x.r.verdict == "cpu" || x.r.verdict.starts_with("signal") {
            o.fail("crash", x.r.verdict.clone());
            return;
        }
        if matches!(x.r.verdict.as_str(), "deadlock" | "horizon" | "budget") && t.is_none() {
            if sled_lost_wakeup(x) {
                o.known.push(("write-error-hangs-store".into(), "a start met a failed write of sled's background thread and waits for it forever".into()));
                continue;
            }
            o.fail("hang", format!("after a storage fault the daemon neither ends nor serves ({}): {}", x.r.verdict, tail(&x.log)));
            return;
        }
        if x.r.verdict == "exit" && faulty {
            let said = x.log.iter().any(|l| {
                matches!(l.k, "OUT" | "ERR") && {
                    let s = l.rest();
                    s.contains("ERROR") || s.contains("error") || s.contains("panicked")
                }
            });
            if !said {
                o.fail("silent end", "the daemon ended by itself and gave no reason");
                return;
            }
            if let Some(i) = t {
                o.fail("served", format!("the daemon began to serve at {} us and then ended because of a storage fault: {}", x.log[i].t, tail(&x.log)));
                return;
            }
            o.count("refused_to_start", 1);
        }
        if x.life.extlock {
            o.count("second_daemons", 1);
            if !announced(&x.log).is_empty() {
                o.fail("second daemon", "announced an identity while another process holds the directory");
            }
            if x.log.iter().any(|l| (l.k == "FS" && l.rest().contains("ctrl.sock")) || l.k == "BIND") {
                o.fail("second daemon", "touched the socket of the process which holds the directory");
            }
            if x.r.verdict != "exit" {
                o.fail("second daemon", format!("did not end ({})", x.r.verdict));
            }
        }
    }
    identities(d, o);
}
fn life_ok(d: &Done, o: &mut Outcome) -> bool {
    if let Some(c) = bad_end(d) {
        o.fail("crash", c);
        return false;
    }
    if listens(&d.log, true).is_none() {
        o.fail("no service", format!("the daemon did not begin to serve ({}): {}", d.r.verdict, tail(&d.log)));
        return false;
    }
    true
}
fn c17(d: &[Done], o: &mut Outcome) {
    let x = d.last().unwrap();
    if !life_ok(x, o) {
        return;
    }
    let mut want: Vec<(usize, String)> = vec![];
    let mut bad = 0;
    let mut gone: BTreeSet<u64> = BTreeSet::new();
    for l in &x.log {
        match l.k {
            "ABORTED" => {
                gone.insert(l.num(0));
            }
            "READERR" if l.int(1) != 4 => {
                gone.insert(l.num(0));
            }
            _ => {}
        }
    }
    let stop = sigint(&x.log).unwrap_or(x.log.len());
    for (i, l) in x.log.iter().enumerate() {
        if l.k == "E" && l.arg(1) == "unixconn" && l.arg(3) != "refused" {
            let cid = l.num(2);
            let Some(c) = x.life.clients.get(cid as usize - 1) else { continue };
            if c.what == "connect" && !gone.contains(&cid) {
                want.push((i, target(c.a).1));
            }
            if c.hostile() && !x.log.iter().any(|m| m.k == "ABORTED" && m.num(0) == cid) {
                bad += 1;
            }
        }
    }
    o.nontrivial = !want.is_empty() || bad > 0;
    o.count("commands", want.len() as u64);
    o.count("malformed_inputs", bad);
    if want.len() > 1000 {
        o.count("lives_with_over_1000_commands", 1);
    }
    let got = attempts(&x.log);
    // if a stall or fault takes it over the end, only a prefix is due
    let (f, s) = last_fault(&x.log);
    let due = x.log.get(stop).map(|l| f + s + 3_000_000 < l.t).unwrap_or(true);
    for (k, (i, w)) in want.iter().enumerate() {
        match got.get(k) {
            None if due => {
                o.fail("not executed", format!("the command of the client which came at {} us ({}) was never executed; {} of {} were ({})", x.log[*i].t, w, got.len(), want.len(), x.r.verdict));
                return;
            }
            None => break,
            Some((j, g)) => {
                if j < i || g.as_ref().map(|g| g != w).unwrap_or(false) {
                    o.fail("wrong order", format!("command {} is {}, executed at {} us was {}", k, w, x.log[*j].t, g.clone().unwrap_or_default()));
                    return;
                }
            }
        }
    }
    if got.len() > want.len() {
        let g = &got[want.len()];
        o.fail("executed without a command", format!("{} at {} us", g.1.clone().unwrap_or_default(), x.log[g.0].t));
        return;
    }
    let said = x.log.iter().filter(|l| matches!(l.k, "OUT" | "ERR") && (l.rest().contains("WARN") || l.rest().contains("ERROR"))).count() as u64;
    let mute = x.log.iter().any(|l| l.k == "F" && l.arg(0) == "stdout");
    if due && said < bad && !mute {
        o.fail("not reported", format!("{} malformed inputs, {} reports", bad, said));
    }
    // without faults nothing else is worth a warning
    let quiet = bad == 0 && !x.log.iter().any(|l| matches!(l.k, "F" | "ABORTED" | "READERR" | "ACCEPTERR" | "RECVERR") || l.k == "E" && l.arg(1) == "stall");
    if quiet {
        o.count("lives_without_faults", 1);
        let long = x.life.clients.iter().filter(|c| c.tail() > 0).count() as u64;
        o.count("long_commands", long);
        if said > 0 && stop == x.log.len() {
            return;
        }
        if said > 0 {
            let l = x.log.iter().find(|l| matches!(l.k, "OUT" | "ERR") && (l.rest().contains("WARN") || l.rest().contains("ERROR"))).unwrap();
            o.fail("well-formed command refused", format!("at {} us: {}", l.t, l.rest()));
        }
    }
}
/// lines of the log which name an error of the system
fn error_lines(log: &[Ln]) -> BTreeMap<i64, u64> {
    let mut m = BTreeMap::new();
    for l in log.iter().filter(|l| l.k == "OUT") {
        let s = l.rest();
        for key in ["code: ", "os error "] {
            if let Some((_, x)) = s.split_once(key) {
                let n: String = x.chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(e) = n.parse() {
                    *m.entry(e).or_default() += 1;
                    break;
                }
            }
        }
    }
    m
}
fn c25(d: &[Done], o: &mut Outcome) {
    let x = d.last().unwrap();
    if !life_ok(x, o) {
        return;
    }
    let from = listens(&x.log, false).unwrap_or(0);
    let exit = x.log.iter().position(|l| l.k == "EXIT");
    let (f, s) = last_fault(&x.log);
    let end = x.log.last().map(|l| l.t).unwrap_or(0);
    // what happened long enough ago, or before an orderly end, is in the log
    let due = |t: u64| exit.is_some() || t.max(f) + s + 6_000_000 < end;
    let mut peers: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut errors: BTreeMap<i64, u64> = BTreeMap::new();
    for l in &x.log[from..] {
        match l.k {
            "ACCEPT" if l.arg(0) == "t" => {
                let e = peers.entry(crate::tcp::text(l, 2)).or_default();
                e.0 += 1;
                e.1 += due(l.t) as u64;
            }
            "ACCEPTERR" if l.arg(0) == "t" && !matches!(l.int(1), 4 | 11) && due(l.t) => *errors.entry(l.int(1)).or_default() += 1,
            "CONNECT" if l.int(3) > 0 && due(l.t) => *errors.entry(l.int(3)).or_default() += 1,
            _ => {}
        }
    }
    o.nontrivial = !peers.is_empty() || !errors.is_empty();
    for (a, (all, due)) in &peers {
        let n = x.log.iter().filter(|l| l.k == "OUT" && !l.rest().contains("WARN") && !l.rest().contains("ERROR") && crate::tcp::names(&l.rest(), a)).count() as u64;
        o.count("connections_in_the_log", n);
        if n < *due || n > *all {
            o.fail("connections logged", format!("{} connections from {} were accepted, {} are in the log ({})", all, a, n, tail(&x.log)));
            return;
        }
    }
    if peers.values().map(|x| x.0).sum::<u64>() > 1000 {
        o.count("lives_with_over_1000_connections", 1);
    }
    let said = error_lines(&x.log[from..]);
    for (e, n) in &errors {
        let g = said.get(e).copied().unwrap_or(0);
        o.count("errors_in_the_log", g);
        if g < *n {
            o.fail("errors logged", format!("{} happened {} times, it is {} times in the log ({})", errno_name(*e), n, g, tail(&x.log)));
            return;
        }
    }
}
fn c26(d: &[Done], o: &mut Outcome) {
    for (k, x) in d.iter().enumerate() {
        if let Some(c) = bad_end(x) {
            o.fail("crash", c);
            return;
        }
        let last = k + 1 == d.len();
        let killed = x.life.ends.iter().any(|e| e.how == "kill" && e.delay < 20_000_000_000);
        let (f, s) = last_fault(&x.log);
        let exit = x.log.iter().position(|l| l.k == "EXIT");
        let stop = sigint(&x.log).unwrap_or(x.log.len());
        let (tcp, unix) = (listens(&x.log, false), listens(&x.log, true));
        match exit {
            Some(e) if e < stop => {
                if tcp.is_some() && unix.is_some() {
                    o.fail("stopped", format!("the daemon served, and ended at {} us: {}", x.log[e].t, tail(&x.log)));
                    return;
                }
                o.count("failed_starts", 1);
                o.nontrivial = true;
                if last || x.life.faults.is_empty() && !x.life.deep {
                    o.fail("no service", format!("the daemon did not begin to serve without a fault: {}", tail(&x.log)));
                    return;
                }
                if x.log[e].arg(0) == "0" {
                    o.fail("success reported", format!("the daemon could not start, and ended with status 0: {}", tail(&x.log)));
                    return;
                }
                if !x.log.iter().any(|l| matches!(l.k, "OUT" | "ERR") && ["error", "ERROR", "fail", "WARN", "cannot"].iter().any(|w| l.rest().contains(w))) {
                    o.fail("silent failure", format!("the daemon could not start, and ended with status {} without a diagnostic", x.log[e].arg(0)));
                    return;
                }
                let limit = f + s + 12_000_000;
                if x.log[e].t > limit.max(15_000_000) {
                    o.fail("slow end", format!("the daemon could not start, and ended at {} us", x.log[e].t));
                    return;
                }
            }
            _ => {
                if killed {
                    continue;
                }
                if tcp.is_none() || unix.is_none() {
                    o.fail("half a service", format!("the daemon goes on though its {} is not there ({}): {}", if tcp.is_none() { "port" } else { "control socket" }, x.r.verdict, tail(&x.log)));
                    return;
                }
                o.count("served", 1);
                // both parts work
                for (i, l) in x.log.iter().enumerate() {
                    if l.k != "E" || l.arg(3) == "refused" {
                        continue;
                    }
                    let limit = l.t.max(f) + s + 10_000_000;
                    if x.log.get(stop).map(|l| l.t <= limit).unwrap_or(false) {
                        continue;
                    }
                    if l.arg(1) == "tcpconn" && !x.log.iter().any(|m| m.k == "ACCEPT" && m.arg(0) == "t" && m.arg(1) == l.arg(2)) {
                        o.fail("half a service", format!("a connection to the port was not accepted ({})", x.r.verdict));
                        return;
                    }
                    if l.arg(1) == "unixconn" {
                        let Some(c) = x.life.clients.get(l.num(2) as usize - 1) else { continue };
                        let w = target(c.a).1;
                        if !attempts(&x.log).iter().any(|a| a.0 > i && a.1.as_ref().map(|g| *g == w).unwrap_or(true)) {
                            o.fail("half a service", format!("a control command was not executed ({})", x.r.verdict));
                            return;
                        }
                    }
                }
            }
        }
    }
    let who: BTreeSet<String> = d.iter().filter(|x| !x.life.deep).flat_map(|x| announced(&x.log)).map(|x| x.1).collect();
    if who.len() > 1 {
        o.fail("identity", format!("the starts announced {} identities", who.len()));
    }
}
fn c18(d: &[Done], o: &mut Outcome) {
    let x = d.last().unwrap();
    if !life_ok(x, o) {
        return;
    }
    if let Some(l) = x.log.iter().find(|l| l.k == "BIGALLOC") {
        o.fail("memory", format!("an allocation of {} bytes at {} us", l.arg(0), l.t));
        return;
    }
    let stop = sigint(&x.log).unwrap_or(x.log.len());
    if let Some(l) = x.log[..stop].iter().find(|l| l.k == "EXIT") {
        o.fail("stopped", format!("the daemon stopped at {} us: {}", l.t, tail(&x.log)));
        return;
    }
    let (f, s) = last_fault(&x.log);
    let bad = x.life.clients.iter().filter(|c| c.what != "connect").count() as u64;
    let got = attempts(&x.log);
    for (i, l) in x.log.iter().enumerate() {
        if l.k != "E" || l.arg(1) != "unixconn" || l.arg(3) == "refused" {
            continue;
        }
        let cid = l.num(2);
        let Some(c) = x.life.clients.get(cid as usize - 1) else { continue };
        if c.hostile() {
            o.count(&format!("client.{}", c.what), 1);
            continue;
        }
        o.count("long_commands", (c.tail() > 0) as u64);
        if c.what != "connect" || x.log.iter().any(|m| (m.k == "ABORTED" && m.num(0) == cid) || (m.k == "READERR" && m.num(0) == cid && m.int(1) != 4)) {
            continue;
        }
        o.nontrivial |= bad > 0;
        o.count("good_clients", 1);
        let w = target(c.a).1;
        let limit = l.t.max(f) + s + 6_000_000 + 4_000_000 * bad;
        let hit = got.iter().find(|g| g.0 > i && g.1.as_ref().map(|g| *g == w).unwrap_or(false));
        match hit {
            Some(g) if x.log[g.0].t <= limit => (),
            Some(g) => {
                o.fail("delayed", format!("a client which came at {} us was served at {} us, with {} hostile clients", l.t, x.log[g.0].t, bad));
                return;
            }
            None if x.log.get(stop).map(|l| l.t > limit).unwrap_or(true) => {
                o.fail("blocked", format!("a client which came at {} us was never served, with {} hostile clients ({})", l.t, bad, x.r.verdict));
                return;
            }
            None => (),
        }
    }
}
fn c19(d: &[Done], o: &mut Outcome) {
    let x = d.last().unwrap();
    if let Some(c) = bad_end(x) {
        o.fail("crash", c);
        return;
    }
    let exit = x.log.iter().position(|l| l.k == "EXIT");
    let Some(s) = sigint(&x.log) else {
        match exit {
            Some(e) => o.fail("stopped", format!("without a signal, at {} us: {}", x.log[e].t, tail(&x.log))),
            None => o.fail("no service", format!("the daemon did not begin to serve ({})", x.r.verdict)),
        }
        return;
    };
    if x.log[s].arg(3) == "default" {
        o.fail("not handled", format!("the signal at {} us met its default action", x.log[s].t));
        return;
    }
    o.nontrivial = true;
    let (f, stalls) = last_fault(&x.log);
    match exit {
        Some(e) if e < s => o.fail("stopped", format!("without a signal, at {} us: {}", x.log[e].t, tail(&x.log))),
        Some(e) => {
            let l = &x.log[e];
            if l.arg(0) != "0" {
                o.fail("status", format!("ended with status {}", l.arg(0)));
            }
            let limit = x.log[s].t.max(f) + 12_000_000 + stalls;
            if l.t > limit {
                o.fail("slow stop", format!("signal at {} us, end at {} us", x.log[s].t, l.t));
            }
            // the threads of the service, not those of the store's pool
            let from = listens(&x.log, false).unwrap_or(0);
            let mut left: BTreeMap<i64, String> = BTreeMap::new();
            for (i, m) in x.log[..e].iter().enumerate() {
                match m.k {
                    "TNEW" if i > from => {
                        left.insert(m.int(0), "unnamed".into());
                    }
                    "TNAME" => {
                        if let Some(n) = left.get_mut(&m.int(0)) {
                            *n = m.arg(1).into();
                        }
                    }
                    "TEND" => {
                        left.remove(&m.int(0));
                    }
                    _ => {}
                }
            }
            left.retain(|_, n| !n.starts_with("sled"));
            // a thread of the pool may not have taken its name yet
            let mut pool: BTreeSet<i64> = BTreeSet::new();
            for m in &x.log[..e] {
                if m.k == "TNEW" && x.log.iter().any(|n| n.k == "TNAME" && n.int(0) == m.tid && (n.arg(1).starts_with("sled") || n.arg(1) == "log flusher")) {
                    pool.insert(m.int(0));
                }
            }
            left.retain(|t, _| !pool.contains(t));
            if let Some((t, n)) = left.iter().next() {
                o.fail("thread left", format!("thread {} ({}) had not ended when the daemon did", t, n));
            }
        }
        None => o.fail("does not stop", format!("signal at {} us on thread {} ({})", x.log[s].t, x.log[s].arg(3), x.r.verdict)),
    }
}
fn c20(d: &[Done], o: &mut Outcome) {
    let x = d.last().unwrap();
    o.nontrivial = d.len() > 1;
    if !life_ok(x, o) {
        return;
    }
    let t = x.log[listens(&x.log, true).unwrap()].t;
    if t > 30_000_000 {
        o.fail("slow start", format!("the control socket was there after {} us", t));
    }
    if announced(&x.log).is_empty() {
        o.fail("no identity", "the daemon serves without having announced its identity");
    }
    let probe = |from: &str| x.log.iter().position(|l| l.k == "E" && l.arg(1) == from);
    match probe("tcpconn") {
        Some(i) if x.log[i].arg(3) != "refused" => {
            let cid = x.log[i].arg(2);
            if !x.log[i..].iter().any(|l| l.k == "ACCEPT" && l.arg(0) == "t" && l.arg(1) == cid && l.t <= x.log[i].t + 10_000_000) {
                o.fail("port not served", format!("a connection to the port was not accepted ({})", x.r.verdict));
            }
        }
        _ => o.fail("port not served", "a connection to the port is refused"),
    }
    match probe("unixconn") {
        Some(i) if x.log[i].arg(3) != "refused" => {
            let w = target(x.life.clients.first().map(|c| c.a).unwrap_or(0)).1;
            if !attempts(&x.log).iter().any(|a| a.1.as_ref() == Some(&w) && x.log[a.0].t <= x.log[i].t + 10_000_000) {
                o.fail("commands not served", format!("a control command was not executed ({})", x.r.verdict));
            }
        }
        _ => o.fail("commands not served", "a connection to the control socket is refused"),
    }
}

impl DaemonSim {
    fn lives<'a>(&self, p: &'a Plan) -> Vec<&'a Life> {
        p.lives.iter().chain(std::iter::once(&p.last)).collect()
    }
    fn go(&self, w: &mut Server, p: &Plan) -> Vec<Ran> {
        let mut img = vec![];
        let mut v = vec![];
        for l in self.lives(p) {
            let r = w.run(&l.render(p.fsmode), if l.fresh { &[] } else { &img });
            if !l.fresh {
                img = r.image.clone();
            }
            let stop = r.harness.is_some();
            v.push(r);
            if stop {
                break;
            }
        }
        v
    }
}
impl Sim for DaemonSim {
    type Plan = Plan;
    type Worker = Server;
    fn worker(&self) -> Result<Server, String> {
        Server::new("sut_node")
    }
    fn generate(&self, rng: &mut Rng, _idx: u64, tier: Tier) -> Plan {
        self.gen(rng, tier)
    }
    fn run(&self, w: &mut Server, plan: &Plan) -> Outcome {
        let rs = self.go(w, plan);
        let mut o = Outcome::default();
        let d: Vec<Done> = self.lives(plan).into_iter().zip(&rs).map(|(life, r)| Done { life, r, log: parse(&r.trace) }).collect();
        for x in &d {
            account(&mut o, x.r, &x.log);
        }
        o.count("lives", d.len() as u64);
        if o.harness_error.is_none() {
            match self.0 {
                Prop::C15 => c15(&d, &mut o),
                Prop::C16 => c16(&d, &mut o),
                Prop::C17 => c17(&d, &mut o),
                Prop::C18 => c18(&d, &mut o),
                Prop::C19 => c19(&d, &mut o),
                Prop::C20 => c20(&d, &mut o),
                Prop::C25 => c25(&d, &mut o),
                Prop::C26 => c26(&d, &mut o),
            }
        }
        o
    }
    fn concrete(&self, w: &mut Server, plan: &Plan) -> Plan {
        let rs = self.go(w, plan);
        let mut p = plan.clone();
        let n = p.lives.len();
        for (k, r) in rs.iter().enumerate() {
            if k < n {
                p.lives[k].base.explicit(&r.devs);
            } else {
                p.last.base.explicit(&r.devs);
            }
        }
        p
    }
    fn rule(&self) -> String {
        let what = match self.0 {
            Prop::C15 => "1-4 (thorough: up to 12) lives ended by kill, power loss (in-order or per-file disk, any cut, torn writes) or interrupt, at any file-system operation, output line, listen or time of start-up, service and shutdown, then a life without faults; sometimes a second fresh directory. Non-trivial: an identity was announced and there was more than one life",
            Prop::C16 => "an optional healthy life, then a life with injected errors, short transfers and a full disk in open/mkdir/flock/read/write/sync/truncate/rename, or with the directory held by another process, ended by power loss, then a life without faults. Non-trivial: a fault was injected",
            Prop::C17 => "a daemon with 1-14 (some: over 1030) control clients: well-formed commands cut in any way with delays, malformed, truncated, empty and absurd input, concurrent or spread, with injected errors and short reads, interrupted waits, failing accepts and connects. Non-trivial: a client reached it",
            Prop::C18 => "a daemon with 1-5 hostile clients (stalled, dribbling, streaming, absurd lengths, garbage, reset; some send commands of up to 1 MiB) and 1-4 good ones, with injected accept, poll and read faults. Non-trivial: a good client met a hostile one",
            Prop::C19 => "a daemon with clients, connections, faults and stalls, interrupted on any thread at any time since its port was open. Non-trivial: the signal was delivered",
            Prop::C25 => "a daemon with up to 15 connections to its port, some from the same address, up to 7 control clients, failing accepts, connects and waits, and an interrupt at any time. Non-trivial: a connection was accepted or an attempt failed",
            Prop::C26 => "1-3 starts with injected errors in making sockets, binding, listening, event queues and event counters, or in a directory too deep for a socket, then a life without faults; what serves is probed on its port and control socket. Non-trivial: a start failed",
            Prop::C20 => "as C15, with more crashes during shutdown, then a life without faults which is probed on its port and control socket. Non-trivial: there was a crash before",
        };
        format!("Each run: {}. Thread switches at every basic block of the nodes, the store and the locks and at every system call by a random, priority-with-change-points or round-robin scheduler; distinct by the sequence of (thread, observable step).", what)
    }
    fn expected_counters(&self) -> Vec<&'static str> {
        match self.0 {
            Prop::C15 | Prop::C20 => vec!["fault.kill", "fault.power_loss", "fault.signal.delivered", "lives"],
            Prop::C16 => vec!["fault.pwrite.EIO", "fault.pwrite.ENOSPC", "fault.pwrite.short", "fault.fsync.EIO", "fault.sfr.EIO", "fault.open.EIO", "event.diskfull", "refused_to_start", "second_daemons", "fault.power_loss"],
            Prop::C17 => vec!["commands", "malformed_inputs", "lives_with_over_1000_commands", "long_commands", "fault.read.EINTR", "fault.read.short", "fault.accept.EMFILE", "fault.poll.EINTR", "fault.poll.spurious"],
            Prop::C25 => vec!["connections_in_the_log", "lives_with_over_1000_connections", "errors_in_the_log", "fault.accept.EMFILE", "fault.connect.ECONNREFUSED", "fault.signal.delivered"],
            Prop::C26 => vec!["failed_starts", "served", "fault.bind.EADDRINUSE", "fault.socket.EMFILE", "fault.epcreate.EMFILE", "fault.eventfd.EMFILE", "fault.listen.EADDRINUSE"],
            Prop::C18 => vec!["good_clients", "client.stall", "client.dribble", "client.stream", "client.absurd", "long_commands", "fault.accept.EMFILE", "fault.poll.EINTR"],
            Prop::C19 => vec!["fault.signal.delivered", "event.tcpconn", "event.unixconn", "fault.poll.EINTR", "event.stall"],
        }
    }
    fn real_components(&self) -> Vec<&'static str> {
        vec!["the daemon (vru-node main, database, control listener)", "vru-tcp, vru-session", "sled, parking_lot, ctrlc, popol, mio, bincode, tracing", "std"]
    }
    fn stub_components(&self) -> Vec<&'static str> {
        vec!["kernel: scheduling, futexes, clocks, signals, sockets, poll/epoll (simrt)", "file system and disk with pending and durable state (simrt)", "control clients and remote peers: scripts of the plan"]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "one thread runs at a time: weak-memory effects are not simulated".into(),
            "thread creation and memory allocation do not fail".into(),
            "the disk does not lose or change what was synced; writes tear at 512-byte sectors".into(),
        ]
    }
}
