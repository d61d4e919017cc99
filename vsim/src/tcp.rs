//! Simulation of the real vru-tcp node (C12 - C14).
use crate::host::{Ran, Server};
use crate::plan::*;
use crate::udp::{held_up, shutdown};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::net::{Ipv4Addr, Ipv6Addr};
use vcore::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Prop {
    C12,
    C13,
    C14,
}
pub struct TcpSim(pub Prop);

#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Op {
    pub op: String,
    pub a: u64,
    pub id: u64,
    pub ns: u64,
}
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Ev {
    /// arrive, reset, stall
    pub what: String,
    pub mark: u64,
    pub delay: u64,
    /// connection; stalled thread
    pub n: u64,
    /// where it comes from; how long stalled
    pub a: u64,
}
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Plan {
    pub base: Base,
    pub ops: Vec<Op>,
    pub evs: Vec<Ev>,
    pub faults: Vec<Flt>,
    pub probe: bool,
    pub drop_ref: bool,
    /// the stream is asked as often as this, not waited for
    #[serde(default)]
    pub polling: u64,
    /// 0 clear and join, 1 join, 2 clear and drop
    pub end: u64,
    pub late: Vec<Op>,
    pub linger: u64,
}

fn remote(a: u64) -> (u64, u64) {
    (0x0a000001 + a / 3, 1000 + a % 3)
}
/// what a connect command asks for, in the driver's and in the trace's form
fn target(a: u64) -> (String, String) {
    let n = a / 8 + 1;
    let port = [9 + a % 5, 9 + a % 5, 0, 0xffff, 256][(a % 5) as usize];
    match a % 8 {
        0..=4 => (format!("{}:{}", Ipv4Addr::from(ipv4(n)), port), format!("4|{:08x}|{}", ipv4(n), port)),
        5 | 6 => (format!("[{}]:{}", Ipv6Addr::from(ipv6(n)), port), format!("6|{}|{}", hex(&ipv6(n)), port)),
        _ => (format!("127.0.0.1:{}", 7000 + a / 8), format!("4|7f000001|{}", 7000 + a / 8)),
    }
}
const PROBE: u64 = 900;
fn op_text(o: &Op) -> String {
    match o.op.as_str() {
        "connect" => format!("connect {} {}", target(o.a).0, o.id),
        "local" => format!("local {} {}", o.id, o.ns),
        "sleep" => format!("sleep {}", o.ns),
        _ => "mark".into(),
    }
}
impl Plan {
    fn render(&self) -> String {
        let mut o = String::new();
        self.base.render(&mut o, 200, 3_000_000);
        let mut ops: Vec<String> = vec![];
        if self.drop_ref {
            ops.push("dropref".into());
        } else if self.polling > 0 {
            ops.push(format!("polling {}", self.polling));
        }
        ops.extend(self.ops.iter().map(op_text));
        let marks = self.ops.iter().filter(|o| o.op == "mark").count() as u64;
        if self.probe {
            ops.push("sleep 3000000000".into());
            ops.push("mark".into());
            ops.push("sleep 8000000000".into());
        }
        if self.end != 1 {
            ops.push("clear".into());
        }
        ops.extend(self.late.iter().map(op_text));
        if self.linger > 0 {
            ops.push(format!("sleep {}", self.linger));
        }
        if self.end == 2 {
            ops.push("sleep 14000000000".into());
            ops.push("dropnode".into());
        } else {
            ops.push("join".into());
        }
        lines_of_drv(&mut o, &ops);
        let mut e = Evs::new();
        for v in &self.evs {
            let (b, n) = if v.mark == 0 { (at::TCPLISTEN, 1) } else { (at::DRIVER, v.mark) };
            let (ip, port) = remote(v.a);
            match v.what.as_str() {
                "arrive" => e.add(b, n, v.delay, kind::TCPCONN, [v.n, ip, port, 0], ""),
                "reset" => e.add(b, n, v.delay, kind::RST, [v.n, 0, 0, 0], ""),
                _ => e.add(b, n, v.delay, kind::STALL, [v.n, v.a, 0, 0], ""),
            };
        }
        if self.probe {
            let (ip, port) = remote(PROBE);
            e.add(at::DRIVER, marks + 1, 1_000_000, kind::TCPCONN, [1_000_000, ip, port, 0], "");
        }
        o += &e.out;
        render_faults(&self.faults, &mut o);
        o
    }
}
fn delay(r: &mut Rng) -> u64 {
    match r.below(10) {
        0..=2 => r.below(30_000),
        3..=6 => r.below(600_000),
        7..=8 => r.below(5_000_000),
        _ => r.below(3_000_000_000),
    }
}
impl TcpSim {
    fn gen(&self, r: &mut Rng, tier: Tier) -> Plan {
        let p = self.0;
        let base = Base::random(r, 3000);
        let mut ops = vec![];
        let mut evs: Vec<Ev> = vec![];
        let mut marks = 0;
        let size = if tier == Tier::Thorough && r.chance(200) { r.range(10, 60) } else { r.range(0, 12) };
        let nt = r.range(1, 24);
        for _ in 0..size {
            match r.below(100) {
                x if x < if p == Prop::C13 { 55 } else { 25 } => ops.push(Op { op: "connect".into(), a: r.below(nt), id: r.below(4), ns: 0 }),
                55..=64 => ops.push(Op { op: "local".into(), a: 0, id: r.below(4), ns: text_length(r) }),
                65..=79 => {
                    ops.push(Op { op: "mark".into(), ..Op::default() });
                    marks += 1
                }
                _ => {
                    let ns = match r.below(10) {
                        0..=5 => r.below(200_000),
                        6..=8 => r.below(5_000_000),
                        _ => r.below(2_500_000_000),
                    };
                    ops.push(Op { op: "sleep".into(), a: 0, id: 0, ns })
                }
            }
        }
        let mut n = 0;
        let na = r.range(1, 12);
        for _ in 0..r.below(6) {
            // a burst: together, or some microseconds apart
            let (mark, d, spread) = (r.range(0, marks), delay(r), *r.pick(&[1, 2000, 50_000, 1_000_000]));
            for _ in 0..*r.pick(&[1, 1, 2, 3, 5, 9]) {
                n += 1;
                let t = d + r.below(spread);
                evs.push(Ev { what: "arrive".into(), mark, delay: t, n, a: r.below(na) });
                if r.chance(150) {
                    evs.push(Ev { what: "reset".into(), mark, delay: t + r.below(2 * spread + 2000), n, a: 0 });
                }
            }
        }
        for (chance, many) in [(20, false), (5, true)] {
            // more at once than the node may expect, more in all than there are descriptors
            if r.chance(chance) {
                let (mark, mut d, k) = (r.range(0, marks), delay(r), *r.pick(&[1, 30, 200]));
                for i in 0..if many { r.range(1040, 1300) } else { r.range(20, 140) } {
                    n += 1;
                    if many && i % k == 0 {
                        d += r.below(2_000_000);
                    }
                    evs.push(Ev { what: "arrive".into(), mark, delay: d + r.below(3000), n, a: r.below(na) });
                }
            }
        }
        let mut faults = vec![];
        if !r.chance(200) {
            for _ in 0..r.below(7) {
                let (class, errs): (&str, &[i64]) = match r.below(10) {
                    0..=3 if p != Prop::C13 => ("accept", &[103, 103, 71, 24, 23, 105, 12, 4, 11]),
                    0..=3 => ("connect", &[101, 111, 99, 113, 13, 1, 110, 11, 98]),
                    4..=7 => ("epoll", &[4, 4, 4, -1, -1, 12]),
                    8 => ("connect", &[101, 111, 99, 113, 13, 1, 110]),
                    _ => ("socket", &[24, 23, 12]),
                };
                let nth = match class {
                    "socket" => r.range(2, 8),
                    "connect" => r.range(1, 6),
                    _ => r.range(1, 20),
                };
                faults.push(Flt { class: class.into(), nth, err: *r.pick(errs), arg: 0 });
            }
            if r.chance(60) {
                let class = *r.pick(&["accept", "epoll", "connect"]);
                let e = match class {
                    "accept" => *r.pick(&[24, 103]),
                    "epoll" => *r.pick(&[4, -1]),
                    _ => 101,
                };
                let f = r.range(1, 4);
                for k in 0..r.range(3, 30) {
                    faults.push(Flt { class: class.into(), nth: f + k, err: e, arg: 0 });
                }
            }
        }
        if r.chance(12) {
            faults.push(Flt { class: r.pick(&["bind", "socket", "listen", "epcreate", "epctl", "eventfd", "thread"]).to_string(), nth: r.range(1, 2), err: *r.pick(&[98, 24, 13]), arg: 0 });
        }
        if r.chance(150) {
            for _ in 0..r.range(1, 2) {
                evs.push(Ev { what: "stall".into(), mark: r.range(0, marks), delay: delay(r), n: r.range(0, 2), a: r.below(4_000_000_000) });
            }
        }
        if p != Prop::C13 && r.chance(if p == Prop::C12 { 25 } else { 12 }) {
            // accepting fails for long while connections keep arriving
            let (k, gap) = (r.range(8, 40), *r.pick(&[30_000_000, 300_000_000, 900_000_000]));
            let e = *r.pick(&[24, 23, 12, 105, 103]);
            for i in 0..k {
                n += 1;
                faults.push(Flt { class: "accept".into(), nth: 1 + i, err: e, arg: 0 });
                evs.push(Ev { what: "arrive".into(), mark: marks, delay: i * gap + r.below(gap), n, a: r.below(na) });
            }
            ops.push(Op { op: "sleep".into(), a: 0, id: 0, ns: k * gap + r.below(2_000_000_000) });
        }
        let probe = match p {
            Prop::C14 => r.chance(150),
            Prop::C12 => r.chance(800),
            Prop::C13 => r.chance(100),
        };
        let end = if p == Prop::C14 { *r.pick(&[0, 0, 1, 1, 2]) } else { *r.pick(&[0, 0, 0, 1]) };
        let mut linger = if r.chance(600) { 0 } else { *r.pick(&[1000, 100_000, 3_000_000, 1_100_000_000]) };
        let mut late = vec![];
        if r.chance(200) {
            for _ in 0..r.range(1, 3) {
                if r.chance(400) {
                    let ns = *r.pick(&[20_000, 300_000, 2_000_000, 1_100_000_000, 3_100_000_000]);
                    late.push(Op { op: "sleep".into(), a: 0, id: 0, ns: r.below(ns) + ns / 4 });
                }
                late.push(Op { op: r.pick(&["connect", "local"]).to_string(), a: r.below(nt), id: 0, ns: text_length(r) });
            }
        }
        if p == Prop::C14 && r.chance(350) {
            let mut t = r.below(300_000_000);
            let gap = *r.pick(&[900_000_000, 500_000_000, 200_000_000, 60_000_000]);
            let mark = r.range(0, marks);
            for _ in 0..(30_000_000_000 / gap).min(120) {
                t += gap / 2 + r.below(gap / 2);
                n += 1;
                evs.push(Ev { what: "arrive".into(), mark, delay: t, n, a: r.below(na) });
            }
            if r.chance(500) {
                linger = 0;
            }
        }
        let polling = if r.chance(200) { *r.pick(&[2_000_000, 30_000_000, 300_000_000]) } else { 0 };
        Plan { polling, base, ops, evs, faults, probe, drop_ref: p != Prop::C13 && r.chance(50), end, late, linger }
    }
}

struct View<'a> {
    log: Vec<Ln<'a>>,
    evs: Vec<(usize, &'a str)>,
    ops: Vec<(usize, &'a str)>,
    rets: BTreeMap<usize, usize>,
    spawned: Option<usize>,
    last_fault: u64,
    stalls: u64,
}
fn view(t: &str) -> View<'_> {
    let log = parse(t);
    let mut v = View { log: vec![], evs: vec![], ops: vec![], rets: BTreeMap::new(), spawned: None, last_fault: 0, stalls: 0 };
    for (i, l) in log.iter().enumerate() {
        match l.k {
            "D" => {
                let s = l.arg(0);
                if let Some(e) = s.strip_prefix("ev ") {
                    v.evs.push((i, e));
                } else if let Some(o) = s.strip_prefix("op ") {
                    v.ops.push((i, o.split_once(' ').map(|x| x.1).unwrap_or("")));
                } else if let Some(o) = s.strip_prefix("ret ") {
                    v.rets.insert(o.parse().unwrap_or(0), i);
                } else if s == "spawned" {
                    v.spawned = Some(i);
                }
            }
            "F" => v.last_fault = l.t,
            "E" if l.arg(1) == "stall" => {
                v.stalls += l.num(3) / 1000;
                v.last_fault = v.last_fault.max(l.t + l.num(3) / 1000);
            }
            _ => {}
        }
    }
    v.log = log;
    v
}
pub fn text(l: &Ln, at: usize) -> String {
    format!("{}:{}", dotted(u64::from_str_radix(l.arg(at), 16).unwrap_or(0)), l.arg(at + 1))
}
pub fn names(x: &str, a: &str) -> bool {
    x.match_indices(a).any(|(i, _)| {
        let after = x[i + a.len()..].chars().next();
        let before = x[..i].chars().next_back();
        !after.map(|c| c.is_ascii_digit()).unwrap_or(false) && !before.map(|c| c.is_ascii_digit() || c == '.').unwrap_or(false)
    })
}
fn stopping(v: &View) -> u64 {
    v.ops.iter().find(|x| matches!(x.1, "clear" | "join" | "dropnode")).map(|x| v.log[x.0].t).unwrap_or(u64::MAX)
}
/// attempts to connect: (line, address or none if it got no socket, error)
fn attempts<'a>(v: &'a View) -> Vec<(usize, Option<String>, i64)> {
    let from = v.spawned.unwrap_or(usize::MAX);
    v.log
        .iter()
        .enumerate()
        .filter(|(i, _)| *i > from)
        .filter_map(|(i, l)| match l.k {
            "CONNECT" => Some((i, Some(format!("{}|{}|{}", l.arg(0), l.arg(1), l.arg(2))), l.int(3))),
            "F" if l.arg(0) == "socket" && l.int(2) > 0 => Some((i, None, l.int(2))),
            _ => None,
        })
        .collect()
}
/// error events against their causes
fn errors(v: &View, o: &mut Outcome, accepts: bool, connects: bool) {
    let mut must: BTreeMap<i64, u64> = BTreeMap::new();
    let mut may: BTreeMap<i64, u64> = BTreeMap::new();
    for l in &v.log {
        let (e, m) = match l.k {
            "ACCEPTERR" if l.arg(0) == "t" => (l.int(1), accepts && !matches!(l.int(1), 4 | 11)),
            "F" if l.arg(0) == "epoll" && l.int(2) > 0 => (l.int(2), false),
            _ => continue,
        };
        *(if m { &mut must } else { &mut may }).entry(e).or_default() += 1;
    }
    for a in attempts(v) {
        if a.2 != 0 {
            *(if connects { &mut must } else { &mut may }).entry(a.2).or_default() += 1;
        }
    }
    let mut got: BTreeMap<i64, u64> = BTreeMap::new();
    for (_, e) in &v.evs {
        if let Some(x) = e.strip_prefix("error ") {
            *got.entry(x.parse().unwrap_or(-1)).or_default() += 1;
        }
    }
    let keys: std::collections::BTreeSet<i64> = must.keys().chain(got.keys()).copied().collect();
    for k in keys {
        let (m, y, g) = (must.get(&k).copied().unwrap_or(0), may.get(&k).copied().unwrap_or(0), got.get(&k).copied().unwrap_or(0));
        if g < m {
            o.fail("error not reported", format!("{} happened {} times, reported {} times", errno_name(k), m, g));
        } else if g > m + y {
            o.fail("error invented", format!("{} happened at most {} times, reported {} times", errno_name(k), m + y, g));
        }
    }
}
fn complete(v: &View) -> bool {
    v.log.iter().any(|l| l.k == "D" && l.arg(0) == "disconnected")
}
fn c12(v: &View, plan: &Plan, r: &Ran, o: &mut Outcome) {
    if let Some(c) = crashed(r, &v.log) {
        o.fail("crash", c);
        return;
    }
    if v.spawned.is_none() {
        return;
    }
    let stop = stopping(v);
    let mut accepted: BTreeMap<String, u64> = BTreeMap::new();
    for (i, l) in v.log.iter().enumerate() {
        match l.k {
            "ACCEPT" if l.arg(0) == "t" => {
                o.count("accepted", 1);
                *accepted.entry(text(l, 2)).or_default() += 1
            }
            "E" if l.arg(1) == "tcpconn" && l.arg(3) != "refused" => {
                o.nontrivial = true;
                let spawned = v.spawned.map(|s| v.log[s].t).unwrap_or(0);
                let limit = l.t.max(v.last_fault).max(spawned) + 5_000_000;
                let taken = v.log[i..].iter().find(|m| (m.k == "ACCEPT" && m.arg(0) == "t" && m.arg(1) == l.arg(2)) || (m.k == "ABORTED" && m.arg(0) == l.arg(2)));
                match taken {
                    Some(m) if m.t <= limit => (),
                    Some(m) if stop > limit => {
                        o.fail("late accept", format!("a connection from {} came at {} us and was accepted at {} us", text(l, 3), l.t, m.t));
                        return;
                    }
                    None if stop > limit => {
                        o.fail("connection left waiting", format!("a connection from {} came at {} us and was never accepted ({})", text(l, 3), l.t, r.verdict));
                        return;
                    }
                    _ => (),
                }
            }
            _ => {}
        }
    }
    if accepted.values().sum::<u64>() > 1000 {
        o.count("runs_with_over_1000_connections", 1);
    }
    if plan.drop_ref || !complete(v) {
        return;
    }
    for (a, n) in &accepted {
        let g = v.evs.iter().filter(|(_, e)| e.starts_with("info ") && names(e, a)).count() as u64;
        if g != *n {
            o.fail("accepted connections reported", format!("{} connections from {} were accepted, {} reported", n, a, g));
        }
    }
    for (_, e) in &v.evs {
        if let Some(x) = e.strip_prefix("info ") {
            if !accepted.keys().any(|a| names(x, a)) {
                o.fail("accepted connections reported", format!("\"{}\" does not name the peer of an accepted connection", x));
            }
        }
    }
    errors(v, o, true, false);
}
fn c13(v: &View, plan: &Plan, r: &Ran, o: &mut Outcome) {
    if let Some(c) = crashed(r, &v.log) {
        o.fail("crash", c);
        return;
    }
    if v.spawned.is_none() {
        return;
    }
    let mut want = vec![];
    for (k, (i, op)) in v.ops.iter().enumerate() {
        let ret = v.rets.get(&k);
        let x: Vec<&str> = op.split(' ').collect();
        let busy: u64 = v.log.iter().filter(|l| l.k == "E" && l.arg(1) == "stall").map(|l| l.num(3) / 1000).sum();
        if matches!(x[0], "connect" | "local") && ret.map(|r| v.log[*r].t > v.log[*i].t + 5_000_000 + busy).unwrap_or(true) {
            o.fail("caller blocked", format!("{} called at {} us: {}", op, v.log[*i].t, ret.map(|r| format!("returned at {} us", v.log[*r].t)).unwrap_or_else(|| format!("does not return ({})", r.verdict))));
            return;
        }
        if x[0] == "connect" {
            want.push((*i, x[1].to_string()));
        }
    }
    o.nontrivial = !want.is_empty();
    let got = attempts(v);
    let form = |t: &str| (0..400).map(target).find(|x| x.0 == t).map(|x| x.1).unwrap_or_default();
    for (k, (i, a)) in want.iter().enumerate() {
        let w = form(a);
        match got.get(k) {
            None => {
                o.fail("no attempt", format!("connect {} at {} us made no attempt", a, v.log[*i].t));
                return;
            }
            Some((j, g, _)) => {
                if j < i || g.as_ref().map(|g| *g != w).unwrap_or(false) {
                    o.fail("wrong attempt", format!("request {} is {}, attempt {} at {} us is {}", k, w, k, v.log[*j].t, g.clone().unwrap_or_default()));
                    return;
                }
            }
        }
    }
    if got.len() > want.len() {
        let x = &got[want.len()];
        o.fail("unrequested attempt", format!("to {} at {} us", x.1.clone().unwrap_or_default(), v.log[x.0].t));
        return;
    }
    o.count("attempts_failed_at_once", got.iter().filter(|x| x.2 != 0).count() as u64);
    o.count("attempts", got.len() as u64);
    if !plan.drop_ref && complete(v) {
        errors(v, o, false, true);
    }
}
fn c14(v: &View, plan: &Plan, r: &Ran, o: &mut Outcome) {
    if let Some(c) = crashed(r, &v.log) {
        o.fail("crash", c);
        return;
    }
    if v.spawned.is_none() {
        return;
    }
    let clear = v.ops.iter().find(|x| x.1 == "clear").map(|x| v.log[x.0].t);
    let node: Vec<i64> = v.log.iter().take(v.spawned.unwrap_or(0)).filter(|l| l.k == "TNEW").map(|l| l.int(0)).collect();
    if plan.end == 2 {
        let Some(c) = clear else { return };
        o.nontrivial = true;
        let Some(d) = v.ops.iter().enumerate().find(|x| x.1 .1 == "dropnode").map(|(k, x)| (x.0, v.rets.get(&k).copied())) else { return };
        for t in node {
            match v.log.iter().find(|l| l.k == "TEND" && l.int(0) == t) {
                Some(l) if l.t <= c + 10_000_000 + v.stalls => (),
                Some(l) => o.fail("slow end", format!("the flag was cleared at {} us, the node's thread ended at {} us", c, l.t)),
                None => o.fail("thread does not end", format!("the flag was cleared at {} us, the node's thread never ended ({})", c, r.verdict)),
            }
        }
        for l in &v.log[..d.0] {
            if l.k == "D" && l.arg(0) == "disconnected" {
                o.fail("early disconnection", format!("at {} us, before the node was dropped", l.t));
            }
        }
        if !plan.drop_ref && d.1.is_some() && o.violations.is_empty() && !complete(v) {
            o.fail("no disconnection", format!("the event stream never ended ({})", r.verdict));
        }
    } else {
        let j = v.ops.iter().enumerate().find(|(_, x)| x.1 == "join").map(|(k, x)| (x.0, v.rets.get(&k).copied()));
        if j.is_none() {
            held_up(&v.log, &v.ops, &v.rets, &r.verdict, o);
        }
        shutdown(&v.log, j, clear.unwrap_or(0), v.stalls, &r.verdict, !plan.drop_ref, o);
    }
    if o.violations.is_empty() && !plan.drop_ref && complete(v) {
        // everything that was reported is delivered
        let nt = o.nontrivial;
        let mut x = Outcome::default();
        c12(v, plan, r, &mut x);
        o.violations.extend(x.violations.into_iter().filter(|x| x.0 == "accepted connections reported" || x.0.starts_with("error ")));
        o.nontrivial = nt;
    }
}

impl Sim for TcpSim {
    type Plan = Plan;
    type Worker = Server;
    fn worker(&self) -> Result<Server, String> {
        Server::new("tcp_driver")
    }
    fn generate(&self, rng: &mut Rng, _idx: u64, tier: Tier) -> Plan {
        self.gen(rng, tier)
    }
    fn run(&self, w: &mut Server, plan: &Plan) -> Outcome {
        let r = w.run(&plan.render(), &[]);
        let mut o = Outcome::default();
        let v = view(&r.trace);
        match self.0 {
            Prop::C12 => c12(&v, plan, &r, &mut o),
            Prop::C13 => c13(&v, plan, &r, &mut o),
            Prop::C14 => c14(&v, plan, &r, &mut o),
        }
        account(&mut o, &r, &v.log);
        o
    }
    fn concrete(&self, w: &mut Server, plan: &Plan) -> Plan {
        let mut p = plan.clone();
        let r = w.run(&plan.render(), &[]);
        p.base.explicit(&r.devs);
        p
    }
    fn rule(&self) -> String {
        let what = match self.0 {
            Prop::C12 => "non-trivial: a connection reached the listener",
            Prop::C13 => "non-trivial: a connect request was made",
            Prop::C14 => "non-trivial: the node was stopped",
        };
        format!("Each run: a real TCP node with its threads, 0-60 API calls (connects to IPv4/IPv6 addresses, local commands, sleeps of up to 2.5 s), bursts of 0-9 arriving connections timed from the listen or from a call, resets, injected errors of accept/connect/socket/epoll_wait and of start-up calls, spurious readiness, stalled threads, then a probe connection and/or shutdown (flag and join, join only, flag only); thread switches at every basic block of the node and at every system call by a random, priority-with-change-points or round-robin scheduler. {}; distinct by the sequence of (thread, observable step).", what)
    }
    fn expected_counters(&self) -> Vec<&'static str> {
        let mut v = vec!["event.tcpconn", "event.rst", "event.stall", "fault.epoll.EINTR", "fault.epoll.spurious", "fault.connect.ENETUNREACH"];
        match self.0 {
            Prop::C12 => v.extend(["fault.accept.ECONNABORTED", "fault.accept.EMFILE", "accepted", "runs_with_over_1000_connections"]),
            Prop::C13 => v.extend(["attempts", "attempts_failed_at_once", "fault.socket.EMFILE"]),
            Prop::C14 => {}
        }
        v
    }
    fn real_components(&self) -> Vec<&'static str> {
        vec!["vru-tcp (node thread, event channel, caller side)", "mio (poll, waker, TCP)", "vru-session node interface", "std (threads, channels, sockets)"]
    }
    fn stub_components(&self) -> Vec<&'static str> {
        vec!["kernel: scheduling, futexes, clock, TCP sockets, epoll (edge-triggered), eventfd (simrt)", "remote peers: connections of the plan", "caller: a driver which performs the plan's API calls"]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["one thread runs at a time: weak-memory effects are not simulated".into(), "thread creation and memory allocation do not fail".into()]
    }
}
