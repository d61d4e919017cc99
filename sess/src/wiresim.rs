//! Parties which send each other keys, ciphertexts, signatures and encoded
//! objects over an unreliable network and keep them over restarts (C22 - C24).
use crate::objects;
use crate::refkyber as rk;
use crate::xxsim::guarded;
use serde::{Deserialize, Serialize};

use std::collections::BTreeMap;
use vcore::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Prop {
    C22,
    C23,
    C24,
}
pub struct WireSim(pub Prop);

#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Op {
    pub at_us: u64,
    pub from: u64,
    pub to: u64,
    /// of the randomness of the operation
    pub seed: u64,
    /// 1: without encoding, 2: with the key of another, 3: kept on disk over a restart
    pub how: u64,
    /// kind of object; length of the message to sign
    pub a: u64,
}
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Net {
    /// which message
    pub k: u64,
    pub drop: bool,
    pub delay_us: u64,
    pub dup_us: u64,
    pub mutate: u64,
    pub mseed: u64,
}
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Crash {
    pub at_us: u64,
    pub party: u64,
}
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Plan {
    /// seeds of their keys
    pub parties: Vec<u64>,
    pub width: u64,
    pub lat_seed: u64,
    pub lat_max_us: u64,
    pub ops: Vec<Op>,
    pub net: Vec<Net>,
    pub crash: Vec<Crash>,
}

fn bytes_of(tag: u64, seed: u64, n: usize) -> Vec<u8> {
    // the extremes occur
    match seed % 64 {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => Rng::new(mix(tag, seed)).bytes(n),
    }
}

#[derive(Clone)]
enum Msg {
    /// (op, key as bytes)
    Key(usize, Vec<u8>),
    /// (op, key used, ciphertext)
    Ct(usize, Vec<u8>),
    /// (op, message, signature)
    Signed(usize, Vec<u8>, Vec<u8>),
    /// (op, object)
    Object(usize, Vec<u8>),
}
enum What {
    Start(usize),
    Deliver(u64, usize, Msg),
    Crash(usize),
}

struct Party {
    kem: Option<Box<dyn objects::KemPair>>,
    ref_sk: Vec<u8>,
    ref_pk: Vec<u8>,
    sig: Option<objects::Signer>,
    /// what is on disk: (op, bytes)
    disk: Vec<(usize, Vec<u8>)>,
}
struct Run<'a> {
    plan: &'a Plan,
    prop: Prop,
    q: BTreeMap<(u64, u64), What>,
    seq: u64,
    sent: u64,
    now: u64,
    parties: Vec<Party>,
    /// of each op: what was encapsulated, (public key, ciphertext, secret)
    enc: Vec<Vec<(Vec<u8>, Vec<u8>, Vec<u8>)>>,
    /// what was decapsulated: (party, ciphertext, secret, genuine)
    dec: Vec<(usize, Vec<u8>, Vec<u8>, bool)>,
    o: Outcome,
    h: Hash64,
    behaviour: Hash64,
}

/// alters a message; what it was is compared afterwards
fn alter(m: &Net, width: usize, prop: Prop, msg: &mut Msg, others: &[Msg]) {
    let mut r = Rng::new(m.mseed);
    let coefficient = |b: &mut [u8], base: usize, d: usize, i: usize, by: u32| {
        let mut v = 0u32;
        let at = |k: usize| (base + (i * d + k) / 8, (i * d + k) % 8);
        for k in 0..d {
            let (p, s) = at(k);
            v |= ((b[p] >> s & 1) as u32) << k;
        }
        v = (v + by) & ((1 << d) - 1);
        for k in 0..d {
            let (p, s) = at(k);
            b[p] = b[p] & !(1 << s) | ((v >> k & 1) as u8) << s;
        }
    };
    fn flip(r: &mut Rng, b: &mut [u8]) {
        if !b.is_empty() {
            let i = r.idx(b.len());
            b[i] ^= 1 << r.below(8);
        }
    }
    match msg {
        Msg::Key(_, b) => match m.mutate % 4 {
            0 => flip(&mut r, b),
            1 => coefficient(b, 0, 11, r.clone().idx(256 * width), 1),
            2 => *b = r.bytes(b.len()),
            _ => {
                if let Some(Msg::Key(_, x)) = others.iter().rfind(|x| matches!(x, Msg::Key(_, y) if y.len() == b.len() && y != b)) {
                    *b = x.clone();
                } else {
                    flip(&mut r, b)
                }
            }
        },
        Msg::Ct(_, b) => match m.mutate % 7 {
            // decrypts to the same message as often as not
            0 => coefficient(b, 352 * width, 3, r.clone().idx(256), *r.clone().pick(&[1, 7])),
            1 => coefficient(b, 0, 11, r.clone().idx(256 * width), *r.clone().pick(&[1, 2047])),
            2 => flip(&mut r, b),
            3 => *b = r.bytes(b.len()),
            4 => {
                let (i, n) = (r.idx(b.len()), 1 + r.idx(64));
                let x = *r.pick(&[0, 0xff]);
                b.iter_mut().skip(i).take(n).for_each(|y| *y = x);
            }
            5 => {
                // the parts of two ciphertexts
                if let Some(Msg::Ct(_, x)) = others.iter().rfind(|x| matches!(x, Msg::Ct(_, y) if y.len() == b.len() && y != b)) {
                    let x = x.clone();
                    b[352 * width..].copy_from_slice(&x[352 * width..]);
                } else {
                    flip(&mut r, b)
                }
            }
            _ => {
                for _ in 0..3 {
                    flip(&mut r, b)
                }
            }
        },
        Msg::Signed(_, m2, s) => match m.mutate % 9 {
            0 => flip(&mut r, m2),
            1 => flip(&mut r, &mut s[..32]),
            2 => flip(&mut r, &mut s[32..]),
            3 => objects::plus_order(&mut s[32..]),
            4 => s[31] ^= 0x80,
            5 => {
                if let Some(Msg::Signed(_, _, x)) = others.iter().rfind(|x| matches!(x, Msg::Signed(_, _, y) if y != s)) {
                    *s = x.clone();
                } else {
                    s[63] ^= 0x80
                }
            }
            6 => m2.push(r.next() as u8),
            7 => {
                m2.pop();
            }
            _ => *s = r.bytes(64),
        },
        Msg::Object(_, b) => match m.mutate % 8 {
            // as a torn write leaves it
            0..=2 => b.truncate(r.idx(b.len().max(1))),
            3 => flip(&mut r, b),
            4 => *b = r.bytes(b.len()),
            5 => {
                let n = r.idx(b.len().max(1));
                b[n..].fill(0)
            }
            6 => b.extend(r.clone().bytes(1 + r.idx(40))),
            _ => b.iter_mut().for_each(|x| *x = 0xff),
        },
    }
    let _ = prop;
}

impl<'a> Run<'a> {
    fn log(&mut self, s: String) {
        let s = format!("{:>8} us  {}", self.now, s);
        self.h.add(s.as_bytes());
        self.o.log.push(s);
    }
    fn at(&mut self, t: u64, w: What) {
        self.seq += 1;
        self.q.insert((t, self.seq), w);
    }
    fn pidx(&self, i: u64) -> usize {
        i as usize % self.parties.len()
    }
    fn send(&mut self, sent: &mut Vec<Msg>, to: usize, msg: Msg) {
        let k = self.sent;
        self.sent += 1;
        let mut lat = Rng::new(mix(self.plan.lat_seed, k));
        let t = self.now + 1 + lat.below(self.plan.lat_max_us.max(1));
        let f = self.plan.net.iter().find(|n| n.k == k).cloned().unwrap_or_default();
        let mut m = msg.clone();
        if f.mutate > 0 {
            alter(&f, self.plan.width as usize, self.prop, &mut m, sent);
            self.o.count(&format!("fault.mutate_{}", f.mutate), 1);
        }
        sent.push(msg);
        if f.drop {
            self.o.count("fault.drop", 1);
            self.log(format!("#{} to {} is lost", k, to));
            return;
        }
        if f.delay_us > 0 {
            self.o.count("fault.delay", 1);
        }
        if f.dup_us > 0 {
            self.o.count("fault.duplicate", 1);
            self.at(t + f.delay_us + f.dup_us, What::Deliver(k, to, m.clone()));
        }
        self.at(t + f.delay_us, What::Deliver(k, to, m));
    }
    /// `None` if it crashed, which is then reported
    fn safe<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match guarded(f) {
            Ok(x) => Some(x),
            Err(e) => {
                self.o.fail("panic", format!("{} panicked: {}", what, e));
                None
            }
        }
    }
    fn encapsulate(&mut self, sent: &mut Vec<Msg>, i: usize, key: Option<&[u8]>) {
        let op = &self.plan.ops[i];
        let (from, to) = (self.pidx(op.from), self.pidx(op.to));
        let seed = bytes_of(2, op.seed, 32);
        let w = self.plan.width as usize;
        let pk = key.map(|k| k.to_vec()).unwrap_or_else(|| self.parties[to].ref_pk.clone());
        let kem = self.parties[to].kem.take().unwrap();
        let r = match key {
            Some(k) => self.safe("encapsulating", || objects::encapsulate(w, &seed, k)),
            None => {
                self.o.count("with_the_key_at_hand", 1);
                self.safe("encapsulating", || kem.encapsulate(&seed))
            }
        };
        self.parties[to].kem = Some(kem);
        let Some((ct, ss)) = r else { return };
        let (rct, rss) = rk::encapsulate(&seed, &pk, &rk::hash(&pk), w);
        if ct != rct {
            self.o.fail("ciphertext", format!("for operation {} it is {}, not {}", i, short(&ct), short(&rct)));
        }
        if ss != rss && ct == rct {
            self.o.fail("encapsulated secret", format!("for operation {} it is {}, not {}", i, short(&ss), short(&rss)));
        }
        self.enc[i].push((pk, ct.clone(), ss.clone()));
        self.o.count("encapsulated", 1);
        self.log(format!("{} encapsulates for {}: {} secret {}", from, to, short(&ct), short(&ss)));
        self.send(sent, to, Msg::Ct(i, ct));
    }
    fn start(&mut self, sent: &mut Vec<Msg>, i: usize) {
        let op = self.plan.ops[i].clone();
        let (from, to) = (self.pidx(op.from), self.pidx(op.to));
        match self.prop {
            Prop::C22 => {
                if op.how == 1 {
                    self.encapsulate(sent, i, None)
                } else {
                    let k = self.parties[to].kem.as_ref().unwrap().public();
                    self.log(format!("{} sends its key to {}", to, from));
                    self.send(sent, from, Msg::Key(i, k));
                }
            }
            Prop::C23 => {
                let m = bytes_of(3, op.seed, op.a as usize);
                let nonce = bytes_of(4, op.seed, 32);
                let s = self.parties[from].sig.take().unwrap();
                let r = self.safe("signing", || s.sign(&m, &nonce));
                if let Some((sig, direct)) = r {
                    self.o.count("signed", 1);
                    self.log(format!("{} signs {}: {}", from, short(&m), short(&sig)));
                    if !direct {
                        self.o.fail("rejected", format!("the signature of operation {} does not verify where it was made", i));
                    }
                    self.send(sent, to, Msg::Signed(i, m, sig));
                }
                self.parties[from].sig = Some(s);
            }
            Prop::C24 => {
                let k = &objects::KINDS[op.a as usize % objects::KINDS.len()];
                let Some(b) = self.safe(&format!("encoding a {}", k.name), || (k.encode)(op.seed)) else { return };
                self.o.count("encoded", 1);
                self.log(format!("{} encodes a {}: {}", from, k.name, short(&b)));
                if op.how == 3 {
                    self.parties[from].disk.push((i, b));
                } else {
                    self.send(sent, to, Msg::Object(i, b));
                }
            }
        }
    }
    fn object(&mut self, i: usize, b: &[u8], party: usize) {
        let op = self.plan.ops[i].clone();
        let k = &objects::KINDS[op.a as usize % objects::KINDS.len()];
        let Ok(was) = guarded(|| (k.encode)(op.seed)) else { return };
        let Some(r) = self.safe(&format!("decoding a {}", k.name), || (k.decode)(op.seed, b)) else { return };
        self.log(format!("{} decodes a {}: {} {:?}", party, k.name, short(b), r));
        self.o.count(&format!("kind.{}", k.name), 1);
        if b == was {
            self.o.count("decoded_unaltered", 1);
            match r {
                objects::Got::Same => (),
                x => self.o.fail("round trip", format!("a {} ({}) decodes as {:?}", k.name, short(&was), x)),
            }
        } else {
            self.o.count("decoded_altered", 1);
            match r {
                objects::Got::Refused => self.o.count("refused", 1),
                _ if b.len() != was.len() && k.sized && (b.len() < was.len() || k.exact) => self.o.fail("wrong length", format!("{} bytes of a {} of {} bytes are accepted", b.len(), k.name, was.len())),
                objects::Got::Same if k.unique && b.len() == was.len() => self.o.fail("two encodings", format!("{} decodes as {} does, a {}", short(b), short(&was), k.name)),
                _ => self.o.count("accepted_as_another", 1),
            }
        }
    }
    fn deliver(&mut self, sent: &mut Vec<Msg>, k: u64, to: usize, m: Msg) {
        match m {
            Msg::Key(i, b) => {
                self.log(format!("#{} key {} reaches {}", k, short(&b), to));
                self.encapsulate(sent, i, Some(&b));
            }
            Msg::Ct(i, b) => {
                let w = self.plan.width as usize;
                let kem = self.parties[to].kem.take().unwrap();
                let r = self.safe("decapsulating", || kem.decapsulate(&b));
                self.parties[to].kem = Some(kem);
                let Some(ss) = r else { return };
                let (want, good) = rk::decapsulate(&self.parties[to].ref_sk, &self.parties[to].ref_pk, &rk::hash(&self.parties[to].ref_pk), &b, w);
                self.log(format!("#{} {} decapsulates {}: {} {}", k, to, short(&b), short(&ss), if good { "" } else { "(not genuine)" }));
                self.o.count(if good { "decapsulated" } else { "decapsulated_not_genuine" }, 1);
                // what was sent, for a key which arrived
                for (pk, ct, es) in &self.enc[i] {
                    let unaltered = *ct == b && *pk == self.parties[to].ref_pk;
                    if unaltered && *es != ss {
                        self.o.fail("agree", format!("operation {}: {} was encapsulated, {} decapsulated", i, short(es), short(&ss)));
                    }
                    if !unaltered && *es == ss {
                        self.o.fail("related", format!("operation {}: the secret {} came from an altered key or ciphertext", i, short(es)));
                    }
                }
                if ss != want {
                    self.o.fail("decapsulated secret", format!("operation {}: {} of {} is not {}", i, short(&ss), if good { "a genuine ciphertext" } else { "an altered ciphertext" }, short(&want)));
                }
                self.dec.push((to, b, ss, good));
            }
            Msg::Signed(i, m, s) => {
                let op = self.plan.ops[i].clone();
                let signer = self.pidx(op.from);
                let by = if op.how == 2 { self.pidx(op.seed / 64) } else { signer };
                let (key, own) = (self.parties[by].sig.as_ref().unwrap().public(), self.parties[signer].sig.as_ref().unwrap().public());
                let Some(v) = self.safe("verifying", || objects::verify(&key, &m, &s)) else { return };
                let genuine = sent.iter().any(|x| matches!(x, Msg::Signed(j, m2, s2) if *m2 == m && *s2 == s && self.parties[self.pidx(self.plan.ops[*j].from)].sig.as_ref().unwrap().public() == key));
                let _ = own;
                self.log(format!("#{} {} verifies {} {} with the key of {}: {}", k, to, short(&m), short(&s), by, v));
                self.o.count(if genuine { "verified_genuine" } else { "verified_forged" }, 1);
                if genuine && !v {
                    self.o.fail("rejected", format!("the signature of operation {} arrived unaltered and does not verify", i));
                }
                if !genuine && v {
                    self.o.fail("accepted", format!("operation {}: {} verifies for {} under the key of {}", i, short(&s), short(&m), by));
                }
            }
            Msg::Object(i, b) => self.object(i, &b, to),
        }
    }
    fn crash(&mut self, j: usize) {
        let c = &self.plan.crash[j];
        let p = self.pidx(c.party);
        self.o.count("fault.crash", 1);
        self.log(format!("{} restarts", p));
        match self.prop {
            Prop::C22 => {
                let kem = self.parties[p].kem.take().unwrap();
                let (w, sk, pk) = (self.plan.width as usize, kem.secret(), kem.public());
                match self.safe("loading a key pair", || objects::load(w, &sk, &pk)) {
                    Some(k) => self.parties[p].kem = Some(k),
                    None => self.parties[p].kem = Some(kem),
                }
            }
            Prop::C23 => {
                let s = self.parties[p].sig.take().unwrap();
                let n = self.safe("loading a secret key", || s.reload());
                self.parties[p].sig = Some(n.unwrap_or(s));
            }
            Prop::C24 => {
                let mut d = std::mem::take(&mut self.parties[p].disk);
                // the last write may be torn
                let mut r = Rng::new(mix(c.at_us, c.party));
                if let Some(l) = d.last_mut() {
                    if r.chance(400) && !l.1.is_empty() {
                        let n = r.idx(l.1.len());
                        l.1.truncate(n);
                        self.o.count("fault.torn_write", 1);
                    }
                }
                for (i, b) in d {
                    self.o.count("read_after_restart", 1);
                    self.object(i, &b, p);
                }
            }
        }
    }
}

impl Sim for WireSim {
    type Plan = Plan;
    type Worker = ();
    fn worker(&self) -> Result<(), String> {
        Ok(())
    }
    fn generate(&self, g: &mut Rng, idx: u64, tier: Tier) -> Plan {
        let big = idx % 8 == 0 || tier == Tier::Thorough && idx % 3 == 0;
        let np = 1 + g.idx(if big { 5 } else { 3 });
        let no = 1 + g.idx(match self.0 {
            Prop::C22 => 5,
            _ => 12,
        } * if big { 3 } else { 1 });
        let span = *g.pick(&[0u64, 1_000, 20_000]);
        let mut ops = vec![];
        for _ in 0..no {
            let how = match self.0 {
                Prop::C22 => g.chance(250) as u64,
                Prop::C23 => 2 * g.chance(250) as u64,
                Prop::C24 => 3 * g.chance(400) as u64,
            };
            let a = match self.0 {
                Prop::C23 => *g.pick(&[0, 1, 4, 32, 64, 135, 136, 137, 500]),
                _ => g.below(1 << 20),
            };
            let (from, to) = (g.below(np as u64), g.below(np as u64));
            ops.push(Op { at_us: g.below(span + 1), from, to, seed: g.next() >> 12, how, a });
        }
        let mut net = vec![];
        let p = *g.pick(&[0, 150, 150, 400]);
        for k in 0..2 * no as u64 {
            let mut n = Net { k, ..Net::default() };
            n.drop = g.chance(p / 4);
            if g.chance(p) {
                n.delay_us = g.below(30_000);
            }
            if g.chance(p) {
                n.dup_us = 1 + g.below(10_000);
            }
            if g.chance(2 * p) {
                n.mutate = 1 + g.below(72);
                n.mseed = g.next() >> 12;
            }
            if n.drop || n.delay_us > 0 || n.dup_us > 0 || n.mutate > 0 {
                net.push(n);
            }
        }
        let crash = (0..g.below(4)).map(|_| Crash { at_us: g.below(span + 40_000), party: g.below(np as u64) }).collect();
        Plan {
            parties: (0..np as u64).map(|_| g.next() >> 12).collect(),
            width: g.range(2, 4),
            lat_seed: g.next() >> 12,
            lat_max_us: *g.pick(&[1, 1_000, 10_000]),
            ops,
            net,
            crash,
        }
    }
    fn run(&self, _w: &mut (), plan: &Plan) -> Outcome {
        let mut r = Run { plan, prop: self.0, q: BTreeMap::new(), seq: 0, sent: 0, now: 0, parties: vec![], enc: plan.ops.iter().map(|_| vec![]).collect(), dec: vec![], o: Outcome::default(), h: Hash64::default(), behaviour: Hash64::default() };
        if plan.parties.is_empty() || !(2..=4).contains(&plan.width) {
            return r.o;
        }
        for s in &plan.parties {
            let mut p = Party { kem: None, ref_sk: vec![], ref_pk: vec![], sig: None, disk: vec![] };
            match self.0 {
                Prop::C22 => {
                    let seed = bytes_of(1, *s, 64);
                    let w = plan.width as usize;
                    let Some(k) = r.safe("generating a key pair", || objects::generate(w, &seed)) else { return r.o };
                    let (sk, pk) = rk::generate(&seed, w);
                    if k.secret() != sk || k.public() != pk {
                        r.o.fail("keys", format!("from seed {}", short(&seed)));
                    }
                    p.kem = Some(k);
                    p.ref_sk = sk;
                    p.ref_pk = pk;
                }
                Prop::C23 => p.sig = Some(objects::Signer::new(&bytes_of(1, *s, 32))),
                Prop::C24 => (),
            }
            r.parties.push(p);
        }
        for (i, o) in plan.ops.iter().enumerate() {
            r.at(o.at_us, What::Start(i));
        }
        for (i, c) in plan.crash.iter().enumerate() {
            r.at(c.at_us, What::Crash(i));
        }
        let mut sent = vec![];
        while let Some((&k, _)) = r.q.iter().next() {
            let w = r.q.remove(&k).unwrap();
            r.now = k.0;
            match w {
                What::Start(i) => {
                    r.behaviour.num(i as u64 * 3);
                    r.start(&mut sent, i)
                }
                What::Crash(j) => {
                    r.behaviour.num(j as u64 * 3 + 1);
                    r.crash(j)
                }
                What::Deliver(n, to, m) => {
                    r.behaviour.num(n * 3 + 2);
                    r.deliver(&mut sent, n, to, m)
                }
            }
        }
        // everything that is not on the way at the end of the run is read once more
        if self.0 == Prop::C24 {
            for p in 0..r.parties.len() {
                for (i, b) in std::mem::take(&mut r.parties[p].disk) {
                    r.object(i, &b, p);
                }
            }
        }
        // different ciphertexts, different secrets
        let mut seen: BTreeMap<(usize, Vec<u8>), Vec<u8>> = BTreeMap::new();
        for (p, ct, ss, _) in &r.dec {
            match seen.insert((*p, ss.clone()), ct.clone()) {
                Some(x) if x != *ct => {
                    let d = format!("party {}: {} and {} both give the secret {}", p, short(&x), short(ct), short(ss));
                    r.o.fail("related", d);
                }
                _ => (),
            }
        }
        r.o.nontrivial = match self.0 {
            Prop::C22 => !r.dec.is_empty(),
            Prop::C23 => r.o.counters.keys().any(|k| k.starts_with("verified")),
            Prop::C24 => r.o.counters.keys().any(|k| k.starts_with("decoded")),
        };
        for k in r.o.counters.iter() {
            r.behaviour.add(k.0.as_bytes());
            r.behaviour.num(*k.1);
        }
        r.o.state_hash = r.behaviour.get();
        let v: Vec<(String, String)> = r.o.violations.clone();
        for (c, d) in v {
            r.log(format!("VIOLATES [{}] {}", c, d));
        }
        r.o.sim_ns = r.now * 1000;
        r.o.log_hash = r.h.get();
        r.o
    }
    fn rule(&self) -> String {
        let what = match self.0 {
            Prop::C22 => "each operation: a party's public key travels to another, which encapsulates and sends the ciphertext back (or encapsulates with the key object at hand), and every delivery is decapsulated; widths 2-4; non-trivial: something was decapsulated",
            Prop::C23 => "each operation: a party signs a message of 0-500 bytes, message and signature travel to another, which verifies them with the signer's or another party's key; non-trivial: something was verified",
            Prop::C24 => "each operation: a party encodes an object of one of the kinds and sends it or keeps it on disk; every delivery and every start decodes; non-trivial: something was decoded",
        };
        format!("Seeded plans: 1-5 parties, 1-36 operations, a latency per message, network faults per message (drop, delay, duplicate, alterations specific to the message), party restarts which leave only encoded state. {}. Distinct: by the sequence of events and the counts of outcomes.", what)
    }
    fn expected_counters(&self) -> Vec<&'static str> {
        let mut v = vec!["fault.drop", "fault.delay", "fault.duplicate", "fault.crash"];
        v.extend(match self.0 {
            Prop::C22 => vec!["encapsulated", "decapsulated", "decapsulated_not_genuine", "with_the_key_at_hand"],
            Prop::C23 => vec!["signed", "verified_genuine", "verified_forged"],
            Prop::C24 => vec!["encoded", "decoded_unaltered", "decoded_altered", "refused", "read_after_restart", "fault.torn_write"],
        });
        v
    }
    fn real_components(&self) -> Vec<&'static str> {
        match self.0 {
            Prop::C22 => vec!["vru-kyber"],
            Prop::C23 => vec!["rac (Schnorr, curve25519)"],
            Prop::C24 => vec!["vru-session keys, identities, commands", "vru-kyber encodings", "rac encodings"],
        }
    }
    fn stub_components(&self) -> Vec<&'static str> {
        vec!["network (discrete-event queue)", "storage of the parties", "the model of the KEM (own implementation without the butterfly)"]
    }
    fn assumptions(&self) -> Vec<String> {
        match self.0 {
            Prop::C22 => vec!["Sha3 and Shake are trusted".into()],
            Prop::C23 => vec!["other keys are honestly generated (rac's signatures do not bind the key, an adversary can make a key for a given signature)".into(), "Schnorr over secp256k1 is not implemented (its subtraction is a stub)".into()],
            Prop::C24 => vec!["the receiver of an encoding of fixed length has checked its length, as the types demand".into()],
        }
    }
}
