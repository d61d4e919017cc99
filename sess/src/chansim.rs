//! C05, C06: secure channels over a faulty network with retransmission.
use crate::real;
use crate::refnoise::A;
use crate::xxsim::guarded;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BinaryHeap;
use std::marker::PhantomData;
use vcore::*;
use vru_noise::{Aead, ChainingKey, Cipher, Rotor};

type N = (sha3::Sha3_256, byteorder::LittleEndian, chacha20poly1305::ChaCha20Poly1305);

thread_local! {
    /// what rotation policies were told: (instance, chaining key, key) and rotations (instance)
    static BORN: RefCell<Vec<(Vec<u8>, Vec<u8>)>> = const { RefCell::new(Vec::new()) };
    static ROTATED: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
}

/// Rotation policy: ratchets with HKDF every I records (I = 0: never)
pub struct Rot<const I: u64> {
    id: usize,
    ck: Vec<u8>,
    key: Vec<u8>,
}
pub fn ratchet(ck: &mut Vec<u8>, key: &mut Vec<u8>) {
    let mut o = crate::refnoise::H::Sha3_256.hkdf(ck, key, 2);
    *key = o.pop().unwrap();
    *ck = o.pop().unwrap();
}
impl<const I: u64> Rotor<N> for Rot<I> {
    const INTERVAL: u64 = if I == 0 { u64::MAX } else { I };
    fn new(ck: ChainingKey<N>, key: Aead<N>) -> Self {
        let id = BORN.with(|b| {
            b.borrow_mut().push((ck.to_vec(), key.to_vec()));
            b.borrow().len() - 1
        });
        Rot { id, ck: ck.to_vec(), key: key.to_vec() }
    }
    fn rotate(&mut self, key: &mut chacha20poly1305::ChaCha20Poly1305) {
        use chacha20poly1305::aead::NewAead;
        ROTATED.with(|r| r.borrow_mut().push(self.id));
        ratchet(&mut self.ck, &mut self.key);
        *key = chacha20poly1305::ChaCha20Poly1305::new(generic_array::GenericArray::from_slice(&self.key));
    }
}

trait End {
    fn seal(&mut self, api: u64, ad: &[u8], text: &[u8]) -> Vec<u8>;
    /// None: refused
    fn open(&mut self, api: u64, ad: &[u8], rec: &[u8]) -> Option<Vec<u8>>;
}
impl<R: Rotor<N>> End for Cipher<N, R> {
    fn seal(&mut self, api: u64, ad: &[u8], text: &[u8]) -> Vec<u8> {
        let mut v = text.to_vec();
        match api % 3 {
            0 => self.encrypt_ext(ad, &mut v),
            1 => {
                let t = self.encrypt(ad, &mut v);
                v.extend_from_slice(&t);
            }
            _ => {
                let t = self.send.encrypt(ad, &mut v);
                v.extend_from_slice(&t);
            }
        }
        v
    }
    fn open(&mut self, api: u64, ad: &[u8], rec: &[u8]) -> Option<Vec<u8>> {
        let mut v = rec.to_vec();
        if api % 3 == 0 || rec.len() < 16 {
            return self.decrypt_ext(ad, &mut v).ok().map(|()| v);
        }
        let n = rec.len() - 16;
        v.truncate(n);
        let t = generic_array::GenericArray::from_slice(&rec[n..]);
        let r = if api % 3 == 1 { self.decrypt(ad, &mut v, t) } else { self.receive.decrypt(ad, &mut v, t) };
        r.ok().map(|()| v)
    }
}

#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Send {
    pub at_us: u64,
    /// direction: 0 initiator to responder
    pub dir: u64,
    pub chan: u64,
    pub len: u64,
    pub ad: u64,
    pub api: u64,
    /// this many records in a row
    pub burst: u64,
}
/// what happens to the k-th transmission
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Net {
    pub k: u64,
    pub drop: bool,
    pub delay_us: u64,
    pub dup_us: u64,
    pub mutate: u64,
    pub mseed: u64,
}
/// the adversary presents a recorded record somewhere
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Replayed {
    pub at_us: u64,
    pub chan: u64,
    pub dir: u64,
    /// which one: counted back from the newest sent record of that direction
    pub back: u64,
    pub to_chan: u64,
    /// reflect to the sender
    pub to_dir: u64,
    pub mutate: u64,
    pub mseed: u64,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Plan {
    pub seed: u64,
    pub interval: u64,
    pub chans: u64,
    pub sends: Vec<Send>,
    pub net: Vec<Net>,
    pub replays: Vec<Replayed>,
    pub lat_seed: u64,
    pub lat_max_us: u64,
    pub retry_us: u64,
}

pub struct ChanSim {
    pub rotation: bool,
}
const INTERVALS: &[u64] = &[1, 2, 3, 5, 16, 64, 256];

fn make(interval: u64, seed: &[u8]) -> Result<(Box<dyn End>, Box<dyn End>), String> {
    fn go<R: Rotor<N> + 'static>(seed: &[u8]) -> Result<(Box<dyn End>, Box<dyn End>), String> {
        let (a, b) = real::pair::<R>(seed)?;
        Ok((Box::new(a), Box::new(b)))
    }
    match interval {
        0 => go::<Rot<0>>(seed),
        1 => go::<Rot<1>>(seed),
        2 => go::<Rot<2>>(seed),
        3 => go::<Rot<3>>(seed),
        5 => go::<Rot<5>>(seed),
        16 => go::<Rot<16>>(seed),
        64 => go::<Rot<64>>(seed),
        256 => go::<Rot<256>>(seed),
        _ => go::<PhantomData<N>>(seed),
    }
}

struct Rec {
    ad: Vec<u8>,
    text: Vec<u8>,
    sealed: Vec<u8>,
}
/// model of one direction of one channel
struct Dir {
    sent: Vec<Rec>,
    next: usize,
    key: Option<Vec<u8>>,
    ck: Vec<u8>,
    rotations: [u64; 2],
    /// rotation policy instances at the sending and at the receiving end
    ids: [Option<usize>; 2],
}

#[derive(PartialEq, Eq)]
enum What {
    Send(usize),
    Deliver { chan: usize, dir: usize, ad: Vec<u8>, rec: Vec<u8>, note: String },
    Replay(usize),
    Retry,
}
#[derive(PartialEq, Eq)]
struct Ev(u64, u64, What);
impl Ord for Ev {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.0, o.1).cmp(&(self.0, self.1))
    }
}
impl PartialOrd for Ev {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}

struct Run<'a> {
    p: &'a Plan,
    ends: Vec<[Box<dyn End>; 2]>,
    dirs: Vec<[Dir; 2]>,
    q: BinaryHeap<Ev>,
    seq: u64,
    now: u64,
    tx: u64,
    o: Outcome,
    h: Hash64,
    b: Hash64,
    fatal: bool,
}

fn mutate(kind: u64, seed: u64, ad: &mut Vec<u8>, rec: &mut Vec<u8>) {
    let mut r = Rng::new(seed ^ 0x7265);
    match kind {
        1 => {
            if !rec.is_empty() {
                let i = r.idx(rec.len());
                rec[i] ^= 1 << r.below(8);
            }
        }
        2 => {
            let i = rec.len().saturating_sub(1 + r.idx(16));
            if i < rec.len() {
                rec[i] ^= 1 << r.below(8);
            }
        }
        3 => {
            let n = r.idx(rec.len() + 1);
            rec.truncate(n);
        }
        4 => {
            let n = 1 + r.idx(20);
            rec.extend(r.bytes(n));
        }
        5 => {
            if ad.is_empty() {
                ad.push(0)
            } else {
                let i = r.idx(ad.len());
                ad[i] ^= 1 << r.below(8);
            }
        }
        6 => {
            ad.pop();
        }
        7 => r.fill(rec),
        8 => {
            let n = r.idx(18);
            *rec = r.bytes(n);
        }
        _ => {}
    }
}

impl Run<'_> {
    fn log(&mut self, s: String) {
        self.h.add(s.as_bytes());
        self.h.num(self.now);
        if self.o.log.len() < 300 {
            self.o.log.push(format!("t={}us {}", self.now, s));
        }
    }
    fn at(&mut self, t: u64, w: What) {
        self.seq += 1;
        self.q.push(Ev(t, self.seq, w));
    }
    fn transmit(&mut self, chan: usize, dir: usize, k: usize, note: &str) {
        let r = &self.dirs[chan][dir].sent[k];
        let (mut ad, mut rec) = (r.ad.clone(), r.sealed.clone());
        let t = self.tx;
        self.tx += 1;
        let lat = 1 + Rng::new(mix(self.p.lat_seed, t)).below(self.p.lat_max_us.max(1));
        let f = self.p.net.iter().find(|n| n.k == t).cloned().unwrap_or_default();
        let mut note = format!("{}record {} (tx {})", note, k, t);
        if f.mutate > 0 {
            let before = (ad.clone(), rec.clone());
            mutate(f.mutate, f.mseed, &mut ad, &mut rec);
            if before != (ad.clone(), rec.clone()) {
                self.o.count(&format!("fault.mutate_{}", f.mutate), 1);
                note += " altered";
            }
        }
        if f.dup_us > 0 {
            self.o.count("fault.duplicate", 1);
            self.at(self.now + lat + f.dup_us, What::Deliver { chan, dir, ad: ad.clone(), rec: rec.clone(), note: note.clone() + " again" });
        }
        if f.drop {
            self.o.count("fault.drop", 1);
        } else {
            if f.delay_us > 0 {
                self.o.count("fault.delay", 1);
            }
            self.at(self.now + lat + f.delay_us, What::Deliver { chan, dir, ad, rec, note });
        }
    }
    fn rotated(&mut self, chan: usize, dir: usize, end: usize, expect: bool, what: &str) {
        // which policy instances rotated during the last operation
        let r: Vec<usize> = ROTATED.with(|r| std::mem::take(&mut *r.borrow_mut()));
        if self.p.interval > 256 {
            return;
        }
        let want: Vec<usize> = if expect { self.dirs[chan][dir].ids[end].into_iter().collect() } else { vec![] };
        if r != want {
            self.o.fail("rotation.calls", format!("channel {} direction {} {}: policies {:?} rotated, the model says {:?}", chan, dir, what, r, want));
        }
        if expect {
            self.o.count("rotations", 1);
            self.dirs[chan][dir].rotations[end] += 1;
        }
    }
    fn send(&mut self, i: usize) {
        let s = self.p.sends[i].clone();
        let (c, d) = ((s.chan % self.p.chans.max(1)) as usize, (s.dir % 2) as usize);
        for j in 0..s.burst.max(1) {
            let mut g = Rng::new(mix(self.p.seed, (i as u64) << 32 | j));
            let text = g.bytes(s.len as usize);
            let ad = g.bytes(s.ad as usize);
            let e = &mut self.ends[c][d];
            let sealed = match guarded(|| e.seal(s.api + j, &ad, &text)) {
                Ok(v) => v,
                Err(e) => {
                    self.o.fail("panic.seal", e);
                    self.fatal = true;
                    return;
                }
            };
            let dm = &mut self.dirs[c][d];
            let n = dm.sent.len() as u64;
            if sealed.len() != text.len() + 16 {
                self.o.fail("record.length", format!("sealed {} bytes into {}", text.len(), sealed.len()));
            }
            if let Some(k) = &dm.key {
                let want = A::ChaCha.seal(k, n, &ad, &text);
                if want != sealed {
                    self.o.fail("record.bytes", format!("channel {} direction {}: record {} is not sealed with the key and counter the model gives", c, d, n));
                }
            }
            dm.sent.push(Rec { ad, text, sealed });
            let interval = self.p.interval;
            let rot = interval != 0 && interval <= 256 && (n + 1) % interval == 0;
            if rot {
                // the model keeps one ratchet per direction, driven by the sender
                if let Some(k) = &mut dm.key {
                    ratchet(&mut dm.ck, k);
                }
            }
            self.rotated(c, d, 0, rot, &format!("sealing record {}", n));
            if j < 40 {
                self.log(format!("channel {} direction {} seals record {} of {} bytes", c, d, n, s.len));
            }
            self.transmit(c, d, n as usize, "");
        }
    }
    fn deliver(&mut self, c: usize, d: usize, ad: Vec<u8>, rec: Vec<u8>, note: String) {
        let api = hash_of(&rec) % 3;
        let e = &mut self.ends[c][1 - d];
        let got = match guarded(|| e.open(api, &ad, &rec)) {
            Ok(g) => g,
            Err(e) => {
                self.o.fail("panic.open", format!("a record of {} bytes: {}", rec.len(), e));
                self.fatal = true;
                return;
            }
        };
        let dm = &mut self.dirs[c][d];
        let n = dm.next;
        let want = dm.sent.get(n).filter(|r| r.ad == ad && r.sealed == rec).map(|r| r.text.clone());
        let interval = self.p.interval;
        let mut rot = false;
        match (&got, &want) {
            (Some(g), Some(w)) => {
                if g != w {
                    self.o.fail("channel.plaintext", format!("channel {} direction {} record {} opened to other bytes", c, d, n));
                }
                dm.next += 1;
                rot = interval != 0 && interval <= 256 && dm.next as u64 % interval == 0;
                self.o.count("opened", 1);
                self.b.num((c * 2 + d) as u64);
            }
            (None, None) => {
                self.o.count("refused", 1);
                self.b.num(7);
            }
            (Some(_), None) => {
                self.o.fail("channel.accepted", format!("channel {} direction {}: opened {} while expecting record {}", c, d, note, n));
                self.fatal = true;
            }
            (None, Some(_)) => {
                self.o.fail("channel.refused", format!("channel {} direction {}: refused the in-order unaltered record {}", c, d, n));
                self.fatal = true;
            }
        }
        if n < 3000 {
            self.log(format!("channel {} direction {} gets {} -> {}", c, d, note, if got.is_some() { "opened" } else { "refused" }));
        }
        self.rotated(c, d, 1, rot, &format!("opening at {}", n));
    }
}

impl Sim for ChanSim {
    type Plan = Plan;
    type Worker = ();
    fn worker(&self) -> Result<(), String> {
        Ok(())
    }
    fn generate(&self, g: &mut Rng, idx: u64, _t: Tier) -> Plan {
        let chans = if g.chance(400) { 2 } else { 1 };
        let interval = if self.rotation { *g.pick(INTERVALS) } else { *g.pick(&[0, 0, 1000]) };
        let long = idx % 20 == 3;
        let huge = idx % 1000 == 500;
        let ns = if huge { 2 } else { 1 + g.idx(if long { 12 } else { 25 }) };
        let span = *g.pick(&[0u64, 5_000, 50_000]);
        let sends: Vec<Send> = (0..ns)
            .map(|_| Send {
                at_us: g.below(span + 1),
                dir: g.below(2),
                chan: g.below(chans),
                len: *g.pick(&[0, 1, 15, 16, 17, 32, 63, 64, 65, 200, 1000]),
                ad: *g.pick(&[0, 0, 1, 3, 16, 40]),
                api: g.below(3),
                burst: if huge { 66_000 } else if long { *g.pick(&[1, 64, 130, 300]) } else { *g.pick(&[1, 1, 1, 2, 4]) },
            })
            .collect();
        let sends: Vec<Send> = sends.into_iter().map(|mut s| {
            if s.burst > 100 {
                s.len %= 70;
            }
            s
        }).collect();
        let total: u64 = sends.iter().map(|s| s.burst).sum();
        let mut net = vec![];
        if g.chance(800) {
            let p = *g.pick(&[20, 100, 250]);
            let mutating = g.chance(700);
            let horizon = (total + total / 2).min(300);
            for k in 0..horizon {
                let drop = g.chance(p / 2);
                let delay_us = if g.chance(p) { g.below(20_000) } else { 0 };
                let dup_us = if g.chance(p) { 1 + g.below(20_000) } else { 0 };
                let mutate = if mutating && g.chance(p) { 1 + g.below(8) } else { 0 };
                if drop || delay_us > 0 || dup_us > 0 || mutate > 0 {
                    net.push(Net { k, drop, delay_us, dup_us, mutate, mseed: g.next() >> 12 });
                }
            }
        }
        let mut replays = vec![];
        if g.chance(700) {
            for _ in 0..1 + g.idx(8) {
                let (chan, dir) = (g.below(chans), g.below(2));
                replays.push(Replayed {
                    at_us: g.below(span + 40_000),
                    chan,
                    dir,
                    back: if huge { *g.pick(&[65_535, 65_534, 255, 0, 1]) } else { *g.pick(&[0, 0, 1, 2, 3, 15, 16, 17, 63, 255, 256]) },
                    to_chan: if g.chance(250) { g.below(chans) } else { chan },
                    to_dir: if g.chance(300) { 1 - dir } else { dir },
                    mutate: if g.chance(300) { 1 + g.below(8) } else { 0 },
                    mseed: g.next() >> 12,
                });
            }
        }
        Plan { seed: g.next() >> 12, interval, chans, sends, net, replays, lat_seed: g.next() >> 12, lat_max_us: *g.pick(&[1, 1, 500, 5_000]), retry_us: *g.pick(&[3_000, 20_000]) }
    }
    fn run(&self, _w: &mut (), p: &Plan) -> Outcome {
        let mut r = Run { p, ends: vec![], dirs: vec![], q: BinaryHeap::new(), seq: 0, now: 0, tx: 0, o: Outcome::default(), h: Hash64::default(), b: Hash64::default(), fatal: false };
        ROTATED.with(|b| b.borrow_mut().clear());
        for c in 0..p.chans.max(1) {
            BORN.with(|b| b.borrow_mut().clear());
            let seed = Rng::new(mix(p.seed, 0x636861 + c)).bytes(512);
            match guarded(|| make(p.interval, &seed)) {
                Ok(Ok((a, b))) => r.ends.push([a, b]),
                Ok(Err(e)) | Err(e) => {
                    // an honest handshake that fails is C01's business
                    r.o.harness_error = None;
                    r.o.fail("channel.setup", format!("honest handshake failed: {}", e));
                    return r.o;
                }
            }
            let born = BORN.with(|b| b.borrow().clone());
            let mut mk = |ids: [Option<usize>; 2], key: Option<Vec<u8>>, ck: Vec<u8>| Dir { sent: vec![], next: 0, key, ck, rotations: [0, 0], ids };
            if p.interval <= 256 {
                // four policies: both directions at both ends. Pair them by key.
                if born.len() != 4 {
                    r.o.fail("rotation.policies", format!("{} rotation policies were made for one channel", born.len()));
                    return r.o;
                }
                if born.iter().any(|b| b.0 != born[0].0) {
                    r.o.fail("rotation.chaining_key", "the ends of a channel start rotation from different chaining keys");
                    return r.o;
                }
                // real::pair finishes the responder first, so policies 0, 1 belong to it
                let (resp, init) = (&born[0..2], &born[2..4]);
                let common: Vec<&Vec<u8>> = resp.iter().map(|x| &x.1).filter(|k| init.iter().any(|i| &i.1 == *k)).collect();
                if common.len() != 2 || resp[0].1 == resp[1].1 {
                    r.o.fail("rotation.keys", "the two directions do not have a key each, common to both ends");
                    return r.o;
                }
                // find out which direction uses which by sealing with a probe model
                let id = |v: &[(Vec<u8>, Vec<u8>)], base: usize, k: &Vec<u8>| v.iter().position(|x| &x.1 == k).map(|i| i + base);
                // initiator seals with the first key of the split: its policy "send" is made first
                let k_i2r = init[0].1.clone();
                let k_r2i = init[1].1.clone();
                let ck = born[0].0.clone();
                let d0 = mk([id(init, 2, &k_i2r), id(resp, 0, &k_i2r)], Some(k_i2r.clone()), ck.clone());
                let d1 = mk([id(resp, 0, &k_r2i), id(init, 2, &k_r2i)], Some(k_r2i.clone()), ck);
                r.dirs.push([d0, d1]);
            } else {
                r.dirs.push([mk([None; 2], None, vec![]), mk([None; 2], None, vec![])]);
            }
        }
        // policy ids restart for every channel in BORN; make them unique by channel is not
        // needed for one channel, and with two channels rotations are compared per operation
        for i in 0..p.sends.len() {
            r.at(p.sends[i].at_us, What::Send(i));
        }
        for i in 0..p.replays.len() {
            r.at(p.replays[i].at_us, What::Replay(i));
        }
        let last_fault = p.sends.iter().map(|s| s.at_us).chain(p.replays.iter().map(|s| s.at_us)).max().unwrap_or(0) + 50_000;
        r.at(p.retry_us.max(100), What::Retry);
        let mut steps = 0u64;
        while let Some(Ev(t, _, w)) = r.q.pop() {
            r.now = t;
            steps += 1;
            if r.fatal || steps > 600_000 {
                break;
            }
            match w {
                What::Send(i) => r.send(i),
                What::Deliver { chan, dir, ad, rec, note } => r.deliver(chan, dir, ad, rec, note),
                What::Replay(i) => {
                    let f = p.replays[i].clone();
                    let (c, d) = ((f.chan % p.chans.max(1)) as usize, (f.dir % 2) as usize);
                    let n = r.dirs[c][d].sent.len();
                    if n > 0 {
                        let k = n.saturating_sub(1 + f.back as usize);
                        let x = &r.dirs[c][d].sent[k];
                        let (mut ad, mut rec) = (x.ad.clone(), x.sealed.clone());
                        if f.mutate > 0 {
                            mutate(f.mutate, f.mseed, &mut ad, &mut rec);
                        }
                        let (tc, td) = ((f.to_chan % p.chans.max(1)) as usize, (f.to_dir % 2) as usize);
                        r.o.count(if tc != c { "fault.cross_session" } else if td != d { "fault.reflect" } else { "fault.replay" }, 1);
                        let note = format!("a copy of record {} of channel {} direction {}", k, c, d);
                        r.deliver(tc, td, ad, rec, note);
                    }
                }
                What::Retry => {
                    // the transport sends again what was not opened yet
                    let mut any = false;
                    for c in 0..r.dirs.len() {
                        for d in 0..2 {
                            let (n, m) = (r.dirs[c][d].next, r.dirs[c][d].sent.len());
                            for k in n..m.min(n + 6) {
                                any = true;
                                r.transmit(c, d, k, "repeat of ");
                                r.o.count("retransmissions", 1);
                            }
                        }
                    }
                    if (any || !r.q.is_empty()) && t < last_fault {
                        r.at(t + p.retry_us.max(100), What::Retry);
                    }
                }
            }
        }
        // faults are over: the rest, presented in order, must open
        if !r.fatal {
            'out: for c in 0..r.dirs.len() {
                for d in 0..2 {
                    while r.dirs[c][d].next < r.dirs[c][d].sent.len() {
                        let x = &r.dirs[c][d].sent[r.dirs[c][d].next];
                        let (ad, rec) = (x.ad.clone(), x.sealed.clone());
                        r.deliver(c, d, ad, rec, "the next record".into());
                        if r.fatal {
                            break 'out;
                        }
                    }
                }
            }
        }
        let refused = r.o.counters.get("refused").copied().unwrap_or(0);
        let opened = r.o.counters.get("opened").copied().unwrap_or(0);
        r.o.nontrivial = opened > 0 && (refused > 0 || self.rotation && r.o.counters.contains_key("rotations"));
        r.o.sim_ns = r.now * 1000;
        for (c, d) in r.o.violations.clone() {
            r.log(format!("VIOLATES [{}] {}", c, d));
        }
        r.o.log_hash = r.h.get();
        r.o.state_hash = r.b.get();
        let rotation = self.rotation;
        r.o.violations.retain(|(c, _)| rotation || !c.starts_with("rotation"));
        r.o
    }
    fn rule(&self) -> String {
        "Seeded plans: one or two channels over real handshakes, records of 0..1000 bytes in both directions through three record interfaces, per-transmission faults (drop, delay, duplicate, 8 kinds of alteration of record or associated data), adversary replays (same direction, reflected, cross-session, at distances up to 65535), retransmission of unopened records. Non-trivial: something opened and something was refused (C05) or a rotation happened (C06). Distinct: by the sequence of openings and refusals per channel and direction.".into()
    }
    fn expected_counters(&self) -> Vec<&'static str> {
        let mut v = vec!["opened", "refused", "retransmissions", "fault.drop", "fault.delay", "fault.duplicate", "fault.replay", "fault.reflect", "fault.cross_session", "fault.mutate_1", "fault.mutate_3", "fault.mutate_5", "fault.mutate_8"];
        if self.rotation {
            v.push("rotations");
        }
        v
    }
    fn real_components(&self) -> Vec<&'static str> {
        vec!["vru-noise Cipher and Unidirectional", "vru-session handshake that keys them"]
    }
    fn stub_components(&self) -> Vec<&'static str> {
        vec!["network and retransmitting transport", "rotation policy (test ratchet behind the Rotor trait)", "reference record layer"]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["counter exhaustion (2^64 records) is out of reach of simulation".into()]
    }
}
