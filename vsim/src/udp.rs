//! Simulation of the real vru-udp node (C08 - C11).
use crate::host::{Ran, Server};
use crate::plan::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use vcore::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Prop {
    C08,
    C09,
    C10,
    C11,
}
pub struct UdpSim(pub Prop);

#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Op {
    pub op: String,
    pub a: u64,
    pub id: u64,
    pub ns: u64,
}
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Ev {
    /// datagram, error, stall
    pub what: String,
    /// 0: since the socket was bound; n: since the n-th mark of the caller
    pub mark: u64,
    pub delay: u64,
    pub a: u64,
    /// datagram length; errno; stalled thread
    pub n: u64,
    /// content seed; how long stalled
    pub m: u64,
}
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Plan {
    pub base: Base,
    pub ops: Vec<Op>,
    pub evs: Vec<Ev>,
    pub faults: Vec<Flt>,
    pub drop_ref: bool,
    /// the stream is asked as often as this, not waited for
    #[serde(default)]
    pub polling: u64,
    /// settle, send a last datagram and wait for its report
    pub probe: bool,
    pub probe_len: u64,
    /// commands between clearing the flag and joining
    pub late: Vec<Op>,
    /// time between clearing the flag and joining
    pub linger: u64,
}

fn addr(a: u64) -> (u64, u64) {
    (0x0a000001 + a / 2, 5000 + a % 2)
}
fn show(a: u64) -> String {
    let (ip, port) = addr(a);
    format!("{}:{}", dotted(ip), port)
}
const PROBE: u64 = 2000;

fn op_text(o: &Op) -> String {
    match o.op.as_str() {
        "connect" => format!("connect {} {}", show(o.a), o.id),
        "local" => format!("local {} {}", o.id, o.ns),
        "sleep" => format!("sleep {}", o.ns),
        _ => "mark".into(),
    }
}
impl Plan {
    fn render(&self) -> String {
        let mut o = String::new();
        self.base.render(&mut o, 120, 3_000_000);
        let mut ops: Vec<String> = vec![];
        if self.drop_ref {
            ops.push("dropref".into());
        } else if self.polling > 0 {
            ops.push(format!("polling {}", self.polling));
        }
        ops.extend(self.ops.iter().map(op_text));
        let marks = self.ops.iter().filter(|o| o.op == "mark").count() as u64;
        if self.probe {
            ops.push("sleep 3000000000".into());
            ops.push("mark".into());
            ops.push("sleep 9000000000".into());
        }
        ops.push("clear".into());
        ops.extend(self.late.iter().map(op_text));
        if self.linger > 0 {
            ops.push(format!("sleep {}", self.linger));
        }
        ops.push("join".into());
        lines_of_drv(&mut o, &ops);
        let mut e = Evs::new();
        for v in &self.evs {
            let (b, n) = if v.mark == 0 { (at::UDPBIND, 1) } else { (at::DRIVER, v.mark) };
            let (ip, port) = addr(v.a);
            match v.what.as_str() {
                "datagram" => e.add(b, n, v.delay, kind::UDPIN, [ip, port, 0, 0], &format!("r{} {}", v.n, v.m)),
                "error" => e.add(b, n, v.delay, kind::UDPERR, [ip, port, v.n, 0], ""),
                _ => e.add(b, n, v.delay, kind::STALL, [v.n, v.m, 0, 0], ""),
            };
        }
        if self.probe {
            let (ip, port) = addr(PROBE);
            e.add(at::DRIVER, marks + 1, 1_000_000, kind::UDPIN, [ip, port, 0, 0], &format!("r{} {}", self.probe_len, 1));
        }
        o += &e.out;
        render_faults(&self.faults, &mut o);
        o
    }
}

fn delay(r: &mut Rng) -> u64 {
    match r.below(10) {
        0..=2 => r.below(20_000),
        3..=6 => r.below(500_000),
        7..=8 => r.below(5_000_000),
        _ => r.below(3_000_000_000),
    }
}
fn length(r: &mut Rng) -> u64 {
    match r.below(100) {
        0..=64 => 1280,
        65..=69 => 0,
        70..=72 => 1,
        73..=79 => 1279,
        80..=86 => 1281,
        87..=89 => 1300,
        90..=92 => 65507,
        93..=94 => 16,
        _ => r.below(2600),
    }
}

impl UdpSim {
    fn gen(&self, r: &mut Rng, tier: Tier) -> Plan {
        let p = self.0;
        let base = Base::random(r, 4000);
        let na = r.range(1, 7);
        let mut ops = vec![];
        let mut evs: Vec<Ev> = vec![];
        let mut marks = 0;
        let size = if tier == Tier::Thorough && r.chance(200) { r.range(10, 60) } else { r.range(1, 16) };
        let ids = r.range(1, 5);
        let follow = if p == Prop::C09 { 750 } else { 550 };
        let sure = r.chance(300);
        for _ in 0..size {
            match r.below(100) {
                0..=49 => {
                    let a = r.below(na);
                    ops.push(Op { op: "connect".into(), a, id: r.below(ids), ns: 0 });
                    if r.chance(follow) {
                        ops.push(Op { op: "mark".into(), ..Op::default() });
                        marks += 1;
                        let n = if sure || r.chance(850) { 1280 } else { length(r) };
                        evs.push(Ev { what: "datagram".into(), mark: marks, delay: delay(r), a, n, m: r.below(1000) });
                        if r.chance(200) {
                            evs.push(Ev { what: "datagram".into(), mark: marks, delay: delay(r), a, n: 1280, m: r.below(1000) });
                        }
                    }
                }
                50..=69 => ops.push(Op { op: "local".into(), a: 0, id: r.below(ids), ns: text_length(r) }),
                _ => {
                    let ns = match r.below(10) {
                        0..=5 => r.below(200_000),
                        6..=8 => r.below(5_000_000),
                        _ => r.below(2_500_000_000),
                    };
                    ops.push(Op { op: "sleep".into(), a: 0, id: 0, ns })
                }
            }
        }
        for _ in 0..r.below(14) {
            evs.push(Ev { what: "datagram".into(), mark: r.range(0, marks), delay: delay(r), a: r.below(na + 1), n: length(r), m: r.below(1000) });
        }
        if r.chance(150) {
            // a burst from one address, all but one at the same time
            let (m, d, a) = (r.range(0, marks), delay(r), r.below(na));
            for _ in 0..r.range(2, 8) {
                evs.push(Ev { what: "datagram".into(), mark: m, delay: d + r.below(3000), a, n: 1280, m: r.below(1000) });
            }
        }
        for (chance, many) in [(20, false), (5, true)] {
            // many at once, many in all
            if r.chance(chance) {
                let (m, mut d, k) = (r.range(0, marks), delay(r), *r.pick(&[1, 30, 200]));
                for i in 0..if many { r.range(1040, 1300) } else { r.range(20, 140) } {
                    if many && i % k == 0 {
                        d += r.below(2_000_000);
                    }
                    evs.push(Ev { what: "datagram".into(), mark: m, delay: d + r.below(3000), a: r.below(na + 1), n: length(r), m: r.below(1000) });
                }
            }
        }
        let mut faults = vec![];
        if !r.chance(200) {
            for _ in 0..r.below(4) {
                evs.push(Ev { what: "error".into(), mark: r.range(0, marks), delay: delay(r), a: r.below(na), n: *r.pick(&[111, 113, 101]), m: 0 });
            }
            for _ in 0..r.below(6) {
                let (class, errs): (&str, &[i64]) = match r.below(10) {
                    0..=2 => ("recv", &[111, 101, 113, 105, 1, 4, 11, 12]),
                    3..=5 => ("send", &[1, 11, 105, 101, 90, 111, 4]),
                    _ => ("poll", &[4, 4, 12, 11, -1, -1, 22]),
                };
                let nth = if class == "send" { r.range(1, 5) } else { r.range(1, 25) };
                faults.push(Flt { class: class.into(), nth, err: *r.pick(errs), arg: 0 });
            }
            if r.chance(60) {
                // the same fault over and over
                let class = *r.pick(&["recv", "poll", "send"]);
                let (n, e) = (r.range(1, 6), *r.pick(&[4, 105, 12]));
                for k in 0..r.range(5, 40) {
                    faults.push(Flt { class: class.into(), nth: n + k, err: e, arg: 0 });
                }
            }
        }
        if !matches!(p, Prop::C08) && r.chance(if p == Prop::C09 { 50 } else { 120 }) {
            // workers which cannot be started; the second thread is the harness's own
            let n = r.range(2, 5);
            for k in 0..*r.pick(&[1, 1, 2, 20]) {
                faults.push(Flt { class: "thread".into(), nth: n + k, err: *r.pick(&[11, 12]), arg: 0 });
            }
        }
        if r.chance(10) {
            faults.push(Flt { class: r.pick(&["bind", "socket", "thread"]).to_string(), nth: 1, err: *r.pick(&[98, 24, 13]), arg: 0 });
        }
        if r.chance(150) {
            for _ in 0..r.range(1, 2) {
                evs.push(Ev { what: "stall".into(), mark: r.range(0, marks), delay: delay(r), a: 0, n: r.range(0, 5), m: r.below(4_000_000_000) });
            }
        }
        let probe = match p {
            Prop::C11 => r.chance(150),
            Prop::C08 | Prop::C09 => r.chance(300),
            _ => true,
        };
        let mut late = vec![];
        if matches!(p, Prop::C10 | Prop::C11) && r.chance(300) {
            for _ in 0..r.range(1, 3) {
                if r.chance(400) {
                    // until the node has seen the flag
                    let ns = *r.pick(&[20_000, 300_000, 2_000_000, 1_100_000_000, 3_100_000_000]);
                    late.push(Op { op: "sleep".into(), a: 0, id: 0, ns: r.below(ns) + ns / 4 });
                }
                let (op, id) = (r.pick(&["connect", "local", "local"]).to_string(), r.below(ids + 1));
                let ns = text_length(r);
                late.push(Op { op, a: r.below(na), id, ns });
            }
        }
        let mut linger = if r.chance(600) { 0 } else { *r.pick(&[1000, 100_000, 3_000_000, 2_100_000_000]) };
        if p == Prop::C11 {
            if r.chance(350) {
                // traffic which never stops for as long as a wait
                let mut t = r.below(300_000_000);
                let gap = *r.pick(&[1_900_000_000, 900_000_000, 300_000_000, 120_000_000]);
                let mark = r.range(0, marks);
                for _ in 0..(30_000_000_000 / gap).min(80) {
                    t += gap / 2 + r.below(gap / 2);
                    evs.push(Ev { what: "datagram".into(), mark, delay: t, a: r.below(na + 1), n: if r.chance(700) { 1280 } else { 5 }, m: r.below(1000) });
                }
            }
            if r.chance(300) {
                linger = 0;
            }
        }
        let polling = if r.chance(200) { *r.pick(&[2_000_000, 30_000_000, 300_000_000]) } else { 0 };
        Plan {
            polling,
            base,
            ops,
            evs,
            faults,
            drop_ref: p == Prop::C10 && r.chance(60),
            probe,
            probe_len: if r.chance(500) { 77 } else { 1280 },
            late,
            linger,
        }
    }
}

struct View<'a> {
    log: Vec<Ln<'a>>,
    /// (line, text)
    evs: Vec<(usize, &'a str)>,
    ops: Vec<(usize, &'a str)>,
    rets: BTreeMap<usize, usize>,
    spawned: bool,
    last_fault: u64,
    stalls: u64,
}
fn view(t: &str) -> View<'_> {
    let log = parse(t);
    let mut v = View { log: vec![], evs: vec![], ops: vec![], rets: BTreeMap::new(), spawned: false, last_fault: 0, stalls: 0 };
    for (i, l) in log.iter().enumerate() {
        match l.k {
            "D" => {
                let s = l.arg(0);
                if let Some(e) = s.strip_prefix("ev ") {
                    v.evs.push((i, e));
                } else if let Some(o) = s.strip_prefix("op ") {
                    v.ops.push((i, o.split_once(' ').map(|x| x.1).unwrap_or("")));
                } else if let Some(o) = s.strip_prefix("ret ") {
                    v.rets.insert(o.parse().unwrap_or(0), i);
                } else if s == "spawned" {
                    v.spawned = true;
                }
            }
            "F" => v.last_fault = l.t,
            "E" => {
                if l.arg(1) == "stall" {
                    v.stalls += l.num(3) / 1000;
                    v.last_fault = v.last_fault.max(l.t + l.num(3) / 1000);
                }
                if l.arg(1) == "udperr" {
                    v.last_fault = v.last_fault.max(l.t);
                }
            }
            _ => {}
        }
    }
    v.log = log;
    v
}

#[derive(Clone, Debug, PartialEq)]
enum Want {
    Size(String, u64),
    Incoming(String),
    Write(String, i64),
    Read(i64),
}
fn text(l: &Ln, at: usize) -> String {
    let ip = u64::from_str_radix(l.arg(at), 16).unwrap_or(0);
    format!("{}:{}", dotted(ip), l.arg(at + 1))
}
/// the node's outcome of each thing it took from its socket: (line, what, optional)
fn outcomes(v: &View) -> Vec<(usize, Want, bool)> {
    let mut w = vec![];
    for (i, l) in v.log.iter().enumerate() {
        match l.k {
            "RECV" => {
                let n = l.num(2);
                let a = text(l, 0);
                if n != 1280 {
                    w.push((i, Want::Size(a, n), false));
                } else {
                    match handled(v, i) {
                        Some(s) => {
                            let e = v.log[s].int(4);
                            if e != 0 {
                                w.push((i, Want::Write(a, e), false));
                            }
                        }
                        None => w.push((i, Want::Incoming(a), false)),
                    }
                }
            }
            "RECVERR" => {
                let e = l.int(0);
                w.push((i, Want::Read(e), e == 4 || e == 11));
            }
            "F" if l.arg(0) == "poll" && l.int(2) > 0 => w.push((i, Want::Read(l.int(2)), true)),
            _ => {}
        }
    }
    w
}
/// the send by which the datagram taken at line `i` was answered
fn handled(v: &View, i: usize) -> Option<usize> {
    let t = v.log[i].tid;
    for (j, l) in v.log.iter().enumerate().skip(i + 1) {
        if l.tid != t {
            continue;
        }
        match l.k {
            "SEND" => return Some(j),
            "RECV" | "RECVERR" | "TEND" => return None,
            "F" if l.arg(0) == "poll" || l.arg(0) == "recv" => return None,
            _ => {}
        }
    }
    None
}
fn fits(w: &Want, e: &str) -> bool {
    match w {
        Want::Size(a, n) => {
            let Some(x) = e.strip_prefix("size ").and_then(|x| x.split_once(' ')) else { return false };
            x.0 == a && x.1.parse::<u64>().map(|m| m == *n || (*n > 1280 && m > 1280)).unwrap_or(false)
        }
        Want::Incoming(a) => e.strip_prefix("info ").map(|x| names(x, a)).unwrap_or(false),
        Want::Write(a, n) => e == format!("writeto {} {}", a, n),
        Want::Read(n) => e == format!("read {}", n),
    }
}
/// the address is a word of the text
fn names(x: &str, a: &str) -> bool {
    x.match_indices(a).any(|(i, _)| {
        let after = x[i + a.len()..].chars().next();
        let before = x[..i].chars().next_back();
        !after.map(|c| c.is_ascii_digit()).unwrap_or(false) && !before.map(|c| c.is_ascii_digit() || c == '.').unwrap_or(false)
    })
}
/// report of a worker, by its text
fn is_worker(e: &str) -> bool {
    e.starts_with("info process connection")
}

fn c08(v: &View, plan: &Plan, o: &mut Outcome) {
    if plan.drop_ref || !v.spawned {
        return;
    }
    let w = outcomes(v);
    o.nontrivial = w.len() > 1;
    o.count("outcomes", w.len() as u64);
    if w.len() > 1000 {
        o.count("runs_with_over_1000_outcomes", 1);
    }
    // positions in `w` the stream may be at; skipping what is optional
    let reach = |s: &mut Vec<bool>| {
        for p in 0..w.len() {
            if s[p] && w[p].2 {
                s[p + 1] = true;
            }
        }
    };
    let mut s = vec![false; w.len() + 1];
    s[0] = true;
    reach(&mut s);
    for (line, e) in v.evs.iter() {
        if e.starts_with("failed ") || is_worker(e) {
            continue;
        }
        let mut n = vec![false; w.len() + 1];
        for p in 0..w.len() {
            if s[p] && w[p].0 < *line && fits(&w[p].1, e) {
                n[p + 1] = true;
            }
        }
        reach(&mut n);
        if n.iter().all(|x| !x) {
            let p = s.iter().position(|x| *x).unwrap_or(0);
            o.fail("wrong outcome", format!("at {} us the stream has \"{}\" where the outcome is {:?}", v.log[*line].t, e, w.get(p).map(|x| &x.1)));
            return;
        }
        s = n;
    }
    if !s[w.len()] {
        let p = s.iter().rposition(|x| *x).unwrap_or(0);
        o.fail("lost outcome", format!("taken at {} us, never reported: {:?}", v.log[w[p].0].t, w[p].1));
    }
}

/// handshakes whose worker could not be started: line of the failure, address
fn unstarted(v: &View) -> Vec<(usize, String)> {
    let mut u = vec![];
    for (i, l) in v.log.iter().enumerate() {
        if l.k == "F" && l.arg(0) == "thread" && l.int(2) > 0 {
            if let Some(h) = v.log[..i].iter().rposition(|x| x.tid == l.tid && x.k == "RECV") {
                u.push((i, text(&v.log[h], 0)));
            }
        }
    }
    u
}

fn c09(v: &View, plan: &Plan, o: &mut Outcome) {
    if !v.spawned {
        return;
    }
    let end = v.log.len();
    // sends: unprompted, wrong address, wrong size, not fresh
    let (mut seen, mut seen_all) = (HashSet::new(), HashSet::new());
    let mut prompts: BTreeMap<usize, usize> = BTreeMap::new();
    for (i, l) in v.log.iter().enumerate() {
        if l.k == "RECV" && l.num(2) == 1280 {
            if let Some(s) = handled(v, i) {
                prompts.insert(s, i);
            }
        }
    }
    for (i, l) in v.log.iter().enumerate() {
        if l.k != "SEND" {
            continue;
        }
        let a = text(l, 1);
        let Some(&r) = prompts.get(&i) else {
            o.fail("unprompted send", format!("to {} at {} us", a, l.t));
            return;
        };
        let from = text(&v.log[r], 0);
        if l.arg(0) != "4" || from != a {
            o.fail("wrong address", format!("a datagram from {} made the node send to {}", from, a));
        }
        if l.num(3) != 1280 {
            o.fail("wrong size", format!("handshake message to {} has {} bytes", a, l.num(3)));
        }
        if !seen.insert(l.arg(5)) || !seen_all.insert(l.arg(6)) {
            o.fail("stale handshake", format!("the message to {} repeats an earlier one", a));
        }
        if l.int(4) == 0 {
            o.count("handshakes_started", 1);
        }
    }
    // accepted requests and answered datagrams, for each address
    let mut addrs: BTreeMap<String, (Vec<(usize, usize)>, Vec<(usize, usize, bool)>)> = BTreeMap::new();
    for (k, (i, op)) in v.ops.iter().enumerate() {
        let mut p = op.split(' ');
        if p.next() == Some("connect") {
            let a = p.next().unwrap_or("").to_string();
            addrs.entry(a).or_default().0.push((*i, v.rets.get(&k).copied().unwrap_or(end)));
        }
    }
    for (i, l) in v.log.iter().enumerate() {
        if l.k == "RECV" && l.num(2) == 1280 {
            let h = handled(v, i);
            // until the answer, or the thread's next step
            let fin = h.unwrap_or_else(|| v.log.iter().enumerate().skip(i + 1).find(|(_, m)| m.tid == l.tid && matches!(m.k, "RECV" | "RECVERR" | "TEND")).map(|x| x.0).unwrap_or(end));
            addrs.entry(text(l, 0)).or_default().1.push((i, fin, h.is_some()));
        }
    }
    let complete = v.log.iter().any(|l| l.k == "D" && l.arg(0) == "disconnected");
    let lost = unstarted(v);
    for (a, (c, d)) in &addrs {
        let refused = v.evs.iter().filter(|(_, e)| e.strip_prefix("failed ") == Some(a.as_str())).count();
        o.count("requests_refused", refused as u64);
        // the others are of workers which could not be started
        let unstarted = lost.iter().filter(|x| x.1 == *a).count();
        let refused = refused.wrapping_sub(unstarted);
        if !c.is_empty() && !d.is_empty() {
            o.nontrivial = true;
        }
        // (requests done, datagrams done, pending) -> possible numbers of refusals
        let (m, n) = (c.len(), d.len());
        let mut dp: Vec<Vec<[u128; 2]>> = vec![vec![[0; 2]; n + 1]; m + 1];
        dp[0][0][0] = 1;
        for i in 0..=m {
            for j in 0..=n {
                for p in 0..2 {
                    let s = dp[i][j][p];
                    if s == 0 {
                        continue;
                    }
                    // next request, unless a later datagram was over before it began
                    if i < m && !(j < n && d[j].1 < c[i].0) {
                        if p == 0 {
                            dp[i + 1][j][1] |= s;
                        } else {
                            dp[i + 1][j][1] |= s << 1;
                        }
                    }
                    if j < n && !(i < m && c[i].1 < d[j].0) && d[j].2 == (p == 1) {
                        dp[i][j + 1][0] |= s;
                    }
                }
            }
        }
        let s = dp[m][n][0] | dp[m][n][1];
        if s == 0 {
            let ans: Vec<_> = d.iter().map(|x| if x.2 { "answered" } else { "not answered" }).collect();
            o.fail("not one handshake per accepted request", format!("{}: {} requests; datagrams from it: {}", a, m, ans.join(", ")));
        } else if !plan.drop_ref && complete && (refused > 100 || s >> refused & 1 == 0) {
            o.fail("refusals", format!("{}: {} requests, {} reported as refused", a, m, refused));
        }
    }
    for (_, e) in &v.evs {
        if let Some(a) = e.strip_prefix("failed ") {
            if addrs.get(a).map(|x| x.0.is_empty()).unwrap_or(true) {
                o.fail("refusals", format!("{} was never requested, but reported as refused", a));
            }
        }
    }
    // reports of the workers
    if plan.drop_ref {
        return;
    }
    let mut by: BTreeMap<String, (Vec<usize>, usize)> = BTreeMap::new();
    for (i, l) in v.log.iter().enumerate() {
        if l.k == "SEND" {
            let e = by.entry(text(l, 1)).or_default();
            // no report of a worker which could not be started
            let next = v.log.iter().skip(i + 1).position(|m| m.tid == l.tid && matches!(m.k, "RECV" | "SEND" | "RECVERR" | "TEND")).map(|x| x + i + 1).unwrap_or(end);
            if lost.iter().any(|x| x.0 > i && x.0 < next) {
                continue;
            }
            if l.int(4) == 0 {
                e.0.push(i)
            } else {
                e.1 += 1
            }
        }
    }
    let mut rep: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (i, e) in &v.evs {
        if is_worker(e) {
            rep.entry(e.rsplit(' ').next().unwrap_or("").to_string()).or_default().push(*i);
        }
    }
    for (a, r) in &rep {
        let (ok, bad) = by.get(a).map(|x| (&x.0[..], x.1)).unwrap_or((&[], 0));
        if r.len() > ok.len() + bad {
            o.fail("worker reports", format!("{}: {} reports of {} handshake messages", a, r.len(), ok.len() + bad));
        }
        if bad == 0 && ok.iter().zip(r).any(|(s, r)| r < s) {
            o.fail("worker reports", format!("{}: reported before the handshake message was sent", a));
        }
    }
    if complete {
        for (a, (ok, _)) in &by {
            let n = rep.get(a).map(|x| x.len()).unwrap_or(0);
            if n < ok.len() {
                o.fail("worker reports", format!("{}: {} handshake messages, {} reports", a, ok.len(), n));
            }
        }
    }
}

fn c10(v: &View, plan: &Plan, r: &Ran, o: &mut Outcome) {
    if let Some(c) = crashed(r, &v.log) {
        o.fail("crash", c);
        return;
    }
    if !v.spawned {
        return;
    }
    o.nontrivial = v.log.iter().any(|l| l.k == "F" || l.k == "RECV");
    for (k, (i, op)) in v.ops.iter().enumerate() {
        if *op == "join" {
            break;
        }
        if !v.rets.contains_key(&k) {
            o.fail("caller blocked", format!("{} at {} us has not returned ({})", op, v.log[*i].t, r.verdict));
            return;
        }
    }
    let closed = v.log.iter().any(|x| x.k == "D" && x.arg(0) == "closed");
    for (i, a) in unstarted(v) {
        let l = &v.log[i];
        o.count("workers_not_started", 1);
        if closed && !plan.drop_ref && !v.evs.iter().any(|(j, e)| *j > i && e.strip_prefix("failed ") == Some(&a)) {
            o.fail("failed worker not reported", format!("the worker for {} could not be started at {} us and no connection failure was reported", a, l.t));
            return;
        }
    }
    if !plan.probe {
        return;
    }
    let (ip, port) = addr(PROBE);
    let Some(p) = v.log.iter().find(|l| l.k == "E" && l.arg(1) == "udpin" && l.arg(2) == hexip(ip) && l.num(3) == port) else {
        o.fail("no probe", format!("the run ended before the last datagram was sent ({})", r.verdict));
        return;
    };
    o.count("probes", 1);
    let limit = p.t.max(v.last_fault) + 6_000_000;
    // only what happens before the flag is cleared counts
    let clear = v.ops.iter().find(|x| x.1 == "clear").map(|x| v.log[x.0].t).unwrap_or(u64::MAX);
    if limit > clear {
        o.count("probes_late", 1);
        return;
    }
    let a = show(PROBE);
    let seen = if plan.drop_ref {
        v.log.iter().find(|l| l.k == "RECV" && text(l, 0) == a).map(|l| l.t)
    } else {
        v.evs.iter().find(|(_, e)| names(e, &a)).map(|(i, _)| v.log[*i].t)
    };
    match seen {
        Some(t) if t <= limit => (),
        Some(t) => o.fail("late report", format!("a datagram sent at {} us was reported at {} us", p.t, t)),
        None => o.fail("no report", format!("a datagram sent at {} us, after the last fault at {} us, was never reported ({})", p.t, v.last_fault, r.verdict)),
    }
}

/// the caller of a node which shuts down does not get as far as joining it
pub fn held_up(log: &[Ln], ops: &[(usize, &str)], rets: &BTreeMap<usize, usize>, verdict: &str, o: &mut Outcome) {
    let Some(c) = ops.iter().position(|x| x.1 == "clear") else { return };
    for (k, (i, op)) in ops.iter().enumerate().skip(c + 1) {
        if !rets.contains_key(&k) && !matches!(*op, "join" | "dropnode") && !op.starts_with("sleep") {
            o.fail("held up", format!("{} at {} us, after the flag was cleared, has not returned ({})", op, log[*i].t, verdict));
            return;
        }
    }
}
pub fn shutdown(v_log: &[Ln], join_op: Option<(usize, Option<usize>)>, clear: u64, stalls: u64, verdict: &str, collector: bool, o: &mut Outcome) {
    let Some((i, ret)) = join_op else { return };
    let t0 = v_log[i].t.max(clear);
    let limit = t0 + 10_000_000 + stalls;
    o.nontrivial = true;
    match ret {
        Some(r) if v_log[r].t <= limit => {
            for l in &v_log[..i] {
                if l.k == "D" && l.arg(0) == "disconnected" {
                    o.fail("early disconnection", format!("at {} us, before the node was joined", l.t));
                }
            }
            let mut started: BTreeMap<i64, String> = BTreeMap::new();
            for l in &v_log[..r] {
                match l.k {
                    "TNEW" => {
                        started.insert(l.int(0), "thread".into());
                    }
                    "TNAME" => {
                        started.insert(l.int(0), l.arg(1).into());
                    }
                    "TEND" => {
                        started.remove(&l.int(0));
                    }
                    _ => {}
                }
            }
            // the driver's own thread, also if it has not got as far as taking its name
            started.retain(|t, _| !v_log.iter().any(|l| l.k == "TNAME" && l.int(0) == *t && l.arg(1) == "collector"));
            if let Some((t, n)) = started.iter().next() {
                o.fail("thread left", format!("thread {} ({}) still runs after join", t, n));
            }
        }
        Some(r) => o.fail("slow join", format!("join took from {} to {} us", v_log[i].t, v_log[r].t)),
        None => o.fail("join does not return", format!("called at {} us ({})", v_log[i].t, verdict)),
    }
    if collector && ret.is_some() {
        let Some(d) = v_log.iter().position(|l| l.k == "D" && l.arg(0) == "disconnected") else {
            o.fail("no disconnection", format!("the event stream never ended ({})", verdict));
            return;
        };
        if v_log[d + 1..].iter().any(|l| l.k == "D" && l.arg(0).starts_with("ev ")) || !v_log[d + 1..].iter().any(|l| l.k == "D" && l.arg(0) == "closed") {
            o.fail("stream after disconnection", "the event stream went on after it reported disconnection");
        }
    }
}

fn c11(v: &View, plan: &Plan, r: &Ran, o: &mut Outcome) {
    if let Some(c) = crashed(r, &v.log) {
        o.fail("crash", c);
        return;
    }
    if !v.spawned {
        return;
    }
    let j = v.ops.iter().enumerate().find(|(_, x)| x.1 == "join").map(|(k, x)| (x.0, v.rets.get(&k).copied()));
    let clear = v.ops.iter().find(|x| x.1 == "clear").map(|x| v.log[x.0].t).unwrap_or(0);
    shutdown(&v.log, j, clear, v.stalls, &r.verdict, !plan.drop_ref, o);
    if j.is_none() {
        // a caller blocked before the flag was cleared is not about shutdown
        o.count("never_joined", 1);
        held_up(&v.log, &v.ops, &v.rets, &r.verdict, o);
    }
    // everything reported before is delivered
    if j.and_then(|x| x.1).is_some() && o.violations.is_empty() {
        let nt = o.nontrivial;
        c08(v, plan, o);
        o.nontrivial = nt;
        let mut x = Outcome::default();
        c09(v, plan, &mut x);
        o.violations.extend(x.violations.into_iter().filter(|x| x.0 == "worker reports"));
    }
}

impl Sim for UdpSim {
    type Plan = Plan;
    type Worker = Server;
    fn worker(&self) -> Result<Server, String> {
        Server::new("udp_driver")
    }
    fn generate(&self, rng: &mut Rng, _idx: u64, tier: Tier) -> Plan {
        self.gen(rng, tier)
    }
    fn run(&self, w: &mut Server, plan: &Plan) -> Outcome {
        let r = w.run(&plan.render(), &[]);
        let mut o = Outcome::default();
        let v = view(&r.trace);
        match self.0 {
            Prop::C08 => c08(&v, plan, &mut o),
            Prop::C09 => c09(&v, plan, &mut o),
            Prop::C10 => c10(&v, plan, &r, &mut o),
            Prop::C11 => c11(&v, plan, &r, &mut o),
        }
        account(&mut o, &r, &v.log);
        o
    }
    fn concrete(&self, w: &mut Server, plan: &Plan) -> Plan {
        let mut p = plan.clone();
        let r = w.run(&plan.render(), &[]);
        p.base.explicit(&r.devs);
        p
    }
    fn rule(&self) -> String {
        let what = match self.0 {
            Prop::C08 => "non-trivial: the node took at least two things from its socket",
            Prop::C09 => "non-trivial: some address was requested and sent a full-size datagram",
            Prop::C10 => "non-trivial: a datagram arrived or a fault was injected",
            Prop::C11 => "non-trivial: the node was joined",
        };
        format!("Each run: a real UDP node with its threads, 1-60 API calls (connects and local commands to few addresses and identities, sleeps of 1 us - 2.5 s), 0-100 datagrams (full size, 0, 1, 1279, 1281, 65507 and random lengths; timed from the bind or from a call, down to microseconds), socket errors, injected errors of recvfrom/sendto/poll, spurious readiness, stalled threads, then a probe and/or shutdown; thread switches at every basic block of the node and at every system call by a random, priority-with-change-points or round-robin scheduler. {}; distinct by the sequence of (thread, observable step).", what)
    }
    fn expected_counters(&self) -> Vec<&'static str> {
        let mut v = vec!["event.udpin", "event.udperr", "event.stall", "fault.recv.EINTR", "fault.recv.ECONNREFUSED", "fault.send.ENOBUFS", "fault.poll.EINTR", "fault.poll.ENOMEM", "fault.poll.spurious"];
        match self.0 {
            Prop::C09 => v.extend(["handshakes_started", "requests_refused"]),
            Prop::C10 => v.extend(["probes", "workers_not_started"]),
            _ => {}
        }
        v
    }
    fn real_components(&self) -> Vec<&'static str> {
        vec!["vru-udp (node thread, worker threads, event channel)", "vru-session handshake", "popol", "std (threads, mutexes, channels, sockets)"]
    }
    fn stub_components(&self) -> Vec<&'static str> {
        vec!["kernel: scheduling, futexes, clock, UDP socket, poll, getrandom (simrt)", "remote peers: datagrams of the plan", "caller: a driver which performs the plan's API calls"]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["one thread runs at a time: weak-memory effects are not simulated".into(), "thread creation and memory allocation do not fail".into()]
    }
}
