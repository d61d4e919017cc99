//! Parties which agree on points of a curve: each applies its secret key to what
//! passes by, or several combine their public keys (C27).
use crate::xxsim::guarded;
use curve25519_dalek::{constants::ED25519_BASEPOINT_TABLE, edwards::EdwardsPoint, montgomery::MontgomeryPoint, scalar::Scalar as S25519};
use generic_array::GenericArray;
use rac_repo::{Array, Curve, LineValid, Scalar};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vcore::*;

pub struct CurveSim;

#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Op {
    pub at_us: u64,
    /// ring: a point is passed on along the route, and each applies its secret key;
    /// joint: all of the route send their public keys to the first of them;
    /// escrow: the second of the route hands its secret key to the first;
    /// share: the first hands out numbers which make up its secret key
    pub what: String,
    pub route: Vec<u64>,
    /// of the form in which points travel
    pub form: u64,
}
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Net {
    pub k: u64,
    pub drop: bool,
    pub delay_us: u64,
    pub dup_us: u64,
    pub mutate: u64,
    pub mseed: u64,
}
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Crash {
    pub at_us: u64,
    pub party: u64,
}
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Plan {
    /// 0 Edwards form of curve25519, 1 Montgomery form, 2 secp256k1
    pub curve: u64,
    pub parties: Vec<u64>,
    pub lat_seed: u64,
    pub lat_max_us: u64,
    pub ops: Vec<Op>,
    pub net: Vec<Net>,
    pub crash: Vec<Crash>,
}

/// the curve by the library it comes from, not by rac
trait Known: Curve + Clone {
    const SUMS: bool;
    const DIFFERENCES: bool;
    fn secret(seed: u64) -> Vec<u8>;
    /// (line, compressed, coordinate if there is one) of the base point times the product, or the sum, of these
    fn expect(secrets: &[Vec<u8>], product: bool) -> Option<(Vec<u8>, Vec<u8>, Option<Vec<u8>>)>;
    /// their combination is a point this form has no room for
    fn opposite(&self, _rhs: &Self) -> bool {
        false
    }
}
fn bytes32(tag: u64, s: u64) -> [u8; 32] {
    let mut b = [0; 32];
    match s % 32 {
        0 => (),
        1 => b = [0xff; 32],
        _ => b.copy_from_slice(&Rng::new(mix(tag, s)).bytes(32)),
    }
    b
}
fn clamped(s: u64) -> Vec<u8> {
    let mut b = bytes32(51, s);
    b[0] &= 248;
    b[31] = b[31] & 127 | 64;
    b.to_vec()
}
fn expect25519(secrets: &[Vec<u8>], product: bool) -> EdwardsPoint {
    let n = |b: &Vec<u8>| {
        let mut x = [0; 32];
        x.copy_from_slice(b);
        S25519::from_bytes_mod_order(x)
    };
    let x = if product { secrets.iter().fold(S25519::one(), |a, b| a * n(b)) } else { secrets.iter().fold(S25519::zero(), |a, b| a + n(b)) };
    &ED25519_BASEPOINT_TABLE * &x
}
impl Known for EdwardsPoint {
    const SUMS: bool = true;
    const DIFFERENCES: bool = true;
    fn secret(seed: u64) -> Vec<u8> {
        clamped(seed)
    }
    fn expect(secrets: &[Vec<u8>], product: bool) -> Option<(Vec<u8>, Vec<u8>, Option<Vec<u8>>)> {
        let b = expect25519(secrets, product).compress().to_bytes().to_vec();
        let mut x = b.clone();
        x[31] &= 127;
        Some((b.clone(), b, Some(x)))
    }
}
impl Known for MontgomeryPoint {
    const SUMS: bool = false;
    const DIFFERENCES: bool = true;
    fn secret(seed: u64) -> Vec<u8> {
        clamped(seed)
    }
    fn expect(secrets: &[Vec<u8>], product: bool) -> Option<(Vec<u8>, Vec<u8>, Option<Vec<u8>>)> {
        let b = expect25519(secrets, product).to_montgomery().to_bytes().to_vec();
        Some((b.clone(), b, None))
    }
}
impl Known for secp256k1::PublicKey {
    const SUMS: bool = true;
    const DIFFERENCES: bool = false;
    fn secret(seed: u64) -> Vec<u8> {
        let mut r = Rng::new(mix(52, seed));
        let mut b = match seed % 12 {
            // one, two and the greatest there is
            0 => [vec![0; 31], vec![1 + (seed / 12 % 2) as u8]].concat(),
            1 => {
                let mut b = vec![0xff; 16];
                b[15] = 0xfe;
                b.extend([0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x40]);
                b
            }
            _ => r.bytes(32),
        };
        while secp256k1::SecretKey::from_slice(&b).is_err() {
            b = r.bytes(32);
        }
        b
    }
    fn expect(secrets: &[Vec<u8>], product: bool) -> Option<(Vec<u8>, Vec<u8>, Option<Vec<u8>>)> {
        let mut x = secp256k1::SecretKey::from_slice(&secrets[0]).unwrap();
        for s in &secrets[1..] {
            if product { x.mul_assign(s) } else { x.add_assign(s) }.ok()?
        }
        let p = secp256k1::PublicKey::from_secret_key(&secp256k1::Secp256k1::new(), &x);
        let c = p.serialize().to_vec();
        Some((p.serialize_uncompressed()[1..].to_vec(), c.clone(), Some(c[1..].to_vec())))
    }
    fn opposite(&self, rhs: &Self) -> bool {
        self.combine(rhs).is_err()
    }
}

#[derive(Clone)]
struct Msg {
    op: usize,
    /// how far along the route
    hop: usize,
    bytes: Vec<u8>,
    compressed: bool,
    /// something on the way was altered
    tainted: bool,
}
enum What {
    Start(usize),
    Deliver(u64, Msg),
    Crash(usize),
}
struct Run<'a, C: Known> {
    plan: &'a Plan,
    q: BTreeMap<(u64, u64), What>,
    seq: u64,
    sent: u64,
    now: u64,
    keys: Vec<C::Scalar>,
    secrets: Vec<Vec<u8>>,
    /// what arrived for a joint key, or shares: (op, member) to bytes
    got: BTreeMap<usize, Vec<(usize, Msg)>>,
    o: Outcome,
    h: Hash64,
    behaviour: Hash64,
}
fn array<N: generic_array::ArrayLength<u8>>(b: &[u8]) -> Option<Array<N>> {
    (b.len() == N::USIZE).then(|| GenericArray::from_slice(b).clone())
}
fn point<C: Known>(b: &[u8], compressed: bool) -> Option<C> {
    if compressed {
        C::decompress(&array(b)?).ok()
    } else {
        C::try_clone_array(&array(b)?).ok()
    }
}
fn encode<C: Known>(p: &C, compressed: bool) -> Vec<u8> {
    if compressed {
        p.compress().to_vec()
    } else {
        p.clone_line().to_vec()
    }
}
fn own<C: Known>(b: &[u8]) -> C::Scalar {
    <C::Scalar as LineValid>::try_clone_array(&array(b).unwrap()).ok().expect("own secret key is refused")
}

impl<'a, C: Known> Run<'a, C>
where
    C::Scalar: Clone,
{
    fn log(&mut self, s: String) {
        let s = format!("{:>8} us  {}", self.now, s);
        self.h.add(s.as_bytes());
        self.o.log.push(s);
    }
    fn at(&mut self, t: u64, w: What) {
        self.seq += 1;
        self.q.insert((t, self.seq), w);
    }
    fn party(&self, op: usize, hop: usize) -> usize {
        self.plan.ops[op].route[hop] as usize % self.keys.len()
    }
    fn safe<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match guarded(f) {
            Ok(x) => Some(x),
            Err(e) => {
                self.o.fail("panic", format!("{} panicked: {}", what, e));
                None
            }
        }
    }
    fn send(&mut self, mut m: Msg) {
        let k = self.sent;
        self.sent += 1;
        let mut lat = Rng::new(mix(self.plan.lat_seed, k));
        let t = self.now + 1 + lat.below(self.plan.lat_max_us.max(1));
        let f = self.plan.net.iter().find(|n| n.k == k).cloned().unwrap_or_default();
        if f.mutate > 0 && self.plan.ops[m.op].what != "escrow" && self.plan.ops[m.op].what != "share" {
            let mut r = Rng::new(f.mseed);
            let was = m.bytes.clone();
            match f.mutate % 4 {
                0 => {
                    let i = r.idx(m.bytes.len());
                    m.bytes[i] ^= 1 << r.below(8)
                }
                1 => m.bytes = r.bytes(m.bytes.len()),
                2 => m.bytes.fill(*r.pick(&[0, 0xff, 1])),
                _ => {
                    let n = r.idx(m.bytes.len());
                    m.bytes.truncate(n)
                }
            }
            m.tainted |= m.bytes != was;
            self.o.count("fault.mutate", 1);
        }
        if f.drop {
            self.o.count("fault.drop", 1);
            self.log(format!("#{} is lost", k));
            return;
        }
        if f.delay_us > 0 {
            self.o.count("fault.delay", 1);
        }
        if f.dup_us > 0 {
            self.o.count("fault.duplicate", 1);
            self.at(t + f.delay_us + f.dup_us, What::Deliver(k, m.clone()));
        }
        self.at(t + f.delay_us, What::Deliver(k, m));
    }
    /// the forms of a point against what they are to be
    fn compare(&mut self, what: &str, p: &C, secrets: &[Vec<u8>], product: bool) {
        let Some((l, c, x)) = C::expect(secrets, product) else {
            // numbers which cancel out on the way: the reference has no such number either
            self.o.count("cancelled_out", 1);
            return;
        };
        let Some((gl, gc)) = self.safe("encoding a point", || (encode(p, false), encode(p, true))) else { return };
        self.log(format!("{}: {}", what, short(&gc)));
        if gl != l || gc != c {
            self.o.fail("another point", format!("{}: {} instead of {}", what, short(&gc), short(&c)));
            return;
        }
        for (b, compressed) in [(&l, false), (&c, true)] {
            let Some(q) = self.safe("decoding a point", || point::<C>(b, compressed)) else { return };
            if q.map(|q| encode(&q, false)) != Some(l.clone()) {
                self.o.fail("form of a point", format!("{} does not decode as the point it encodes", short(b)));
            }
        }
        if let Some(x) = x {
            let Some(g) = self.safe("the coordinate", || p.x_coordinate().to_vec()) else { return };
            if g != x {
                self.o.fail("coordinate", format!("of {}: {} instead of {}", short(&c), short(&g), short(&x)));
            }
        }
    }
    fn of(&self, op: usize) -> Vec<Vec<u8>> {
        (0..self.plan.ops[op].route.len()).map(|h| self.secrets[self.party(op, h)].clone()).collect()
    }
    /// applies the key of the party at this hop and passes the point on
    fn hop(&mut self, op: usize, hop: usize, p: C, tainted: bool) {
        let n = self.party(op, hop);
        let k = self.keys[n].clone();
        let Some(p) = self.safe("applying a secret key", || p.exp_ec(&k)) else { return };
        self.o.count("applied", 1);
        if hop + 1 == self.plan.ops[op].route.len() {
            if tainted {
                self.o.count("altered_on_the_way", 1);
            } else {
                self.o.count("agreed", 1);
                let s = self.of(op);
                self.compare(&format!("operation {}: the shared point at {}", op, n), &p, &s, true);
            }
            return;
        }
        let compressed = self.plan.ops[op].form >> (hop % 60) & 1 == 1;
        let Some(bytes) = self.safe("encoding a point", || encode(&p, compressed)) else { return };
        self.log(format!("operation {}: {} passes {} on", op, n, short(&bytes)));
        self.send(Msg { op, hop: hop + 1, bytes, compressed, tainted });
    }
    fn start(&mut self, op: usize) {
        let o = self.plan.ops[op].clone();
        if o.route.is_empty() {
            return;
        }
        match o.what.as_str() {
            "ring" => {
                let Some(b) = self.safe("the base point", C::base) else { return };
                self.hop(op, 0, b, false)
            }
            "joint" if C::SUMS => {
                for h in 0..o.route.len() {
                    let k = self.keys[self.party(op, h)].clone();
                    let compressed = o.form >> (h % 60) & 1 == 1;
                    let Some(bytes) = self.safe("a public key", || encode(&C::base().exp_ec(&k), compressed)) else { return };
                    self.send(Msg { op, hop: h, bytes, compressed, tainted: false });
                }
            }
            "escrow" if o.route.len() > 1 => {
                let k = self.keys[self.party(op, 1)].clone();
                self.send(Msg { op, hop: 1, bytes: k.clone_line().to_vec(), compressed: false, tainted: false });
            }
            "share" if C::DIFFERENCES && o.route.len() > 1 => {
                // all but one number are the keys of others, the last one is what is left
                let mut rest = self.keys[self.party(op, 0)].clone();
                for h in 1..o.route.len() {
                    let k = self.keys[self.party(op, h)].clone();
                    let Some(r) = self.safe("the difference of numbers", || rest.sub_ff(&k)) else { return };
                    let Ok(r) = r else {
                        self.o.fail("difference", format!("operation {}: it is refused", op));
                        return;
                    };
                    rest = r;
                }
                let bytes = rest.clone_line().to_vec();
                self.send(Msg { op, hop: 0, bytes, compressed: false, tainted: false });
            }
            _ => (),
        }
    }
    fn deliver(&mut self, k: u64, m: Msg) {
        let o = self.plan.ops[m.op].clone();
        match o.what.as_str() {
            "ring" => {
                let Some(p) = self.safe("decoding a point", || point::<C>(&m.bytes, m.compressed)) else { return };
                match p {
                    Some(p) => self.hop(m.op, m.hop, p, m.tainted),
                    None if m.tainted => {
                        self.o.count("refused", 1);
                        self.log(format!("#{} {} is refused", k, short(&m.bytes)));
                    }
                    None => self.o.fail("refused", format!("operation {}: the point {}", m.op, short(&m.bytes))),
                }
            }
            "joint" => {
                let v = self.got.entry(m.op).or_default();
                if v.iter().any(|x| x.0 == m.hop) {
                    return;
                }
                v.push((m.hop, m.clone()));
                if v.len() < o.route.len() {
                    return;
                }
                let v = v.clone();
                let mut opposite = false;
                let r = guarded(|| {
                    let p: Option<Vec<C>> = v.iter().map(|x| point::<C>(&x.1.bytes, x.1.compressed)).collect();
                    p.map(|mut p| {
                        // in a grouping of its own
                        let mut g = Rng::new(o.form);
                        while p.len() > 1 {
                            let i = g.idx(p.len() - 1);
                            let b = p.remove(i + 1);
                            opposite |= p[i].opposite(&b);
                            p[i] = p[i].mul_ec(&b);
                        }
                        p.remove(0)
                    })
                });
                let r = match r {
                    Ok(r) => r,
                    Err(e) if opposite => {
                        self.o.count("opposite_keys", 1);
                        self.o.known.push(("opposite-keys".into(), "combining a secp256k1 public key with its opposite panics".into()));
                        self.log(format!("operation {}: combining opposite keys panics (known finding): {}", m.op, e.lines().next().unwrap_or("")));
                        return;
                    }
                    Err(e) => {
                        self.o.fail("panic", format!("combining public keys panicked: {}", e));
                        return;
                    }
                };
                let tainted = v.iter().any(|x| x.1.tainted);
                match r {
                    _ if tainted => self.o.count("altered_on_the_way", 1),
                    None => self.o.fail("refused", format!("operation {}: a public key", m.op)),
                    Some(p) => {
                        let s = self.of(m.op);
                        self.o.count("combined", 1);
                        self.compare(&format!("operation {}: the joint key", m.op), &p, &s, false);
                        // the sum of the secret keys belongs to it
                        let keys: Vec<C::Scalar> = (0..o.route.len()).map(|h| self.keys[self.party(m.op, h)].clone()).collect();
                        let q = self.safe("the sum of secret keys", || {
                            let mut x = keys[0].clone();
                            for k in &keys[1..] {
                                x = x.add_ff(k).ok()?;
                            }
                            Some(C::base().exp_ec(&x))
                        });
                        match q {
                            Some(Some(q)) => self.compare(&format!("operation {}: the key of the sum", m.op), &q, &s, false),
                            Some(None) if C::expect(&s, false).is_none() => self.o.count("cancelled_out", 1),
                            Some(None) => self.o.fail("sum", format!("operation {}: it is refused", m.op)),
                            None => (),
                        }
                    }
                }
            }
            "escrow" => {
                let Some(b) = array(&m.bytes) else { return };
                let (own, n) = (self.keys[self.party(m.op, 0)].clone(), self.party(m.op, 0));
                let r = self.safe("the product of secret keys", || {
                    let k = <C::Scalar as LineValid>::try_clone_array(&b).ok()?;
                    let x = own.mul_ff(&k).ok()?;
                    // the number is kept
                    let x = C::Scalar::try_clone_ff(&x.clone_line()).ok()?;
                    Some((C::base().exp_ec(&x), C::base().exp_ec(&k).exp_ec(&own)))
                });
                let s = self.of(m.op)[..2].to_vec();
                match r {
                    Some(Some((p, q))) => {
                        self.o.count("escrowed", 1);
                        self.compare(&format!("operation {}: the key of the product at {}", m.op, n), &p, &s, true);
                        self.compare(&format!("operation {}: the one key applied after the other at {}", m.op, n), &q, &s, true);
                    }
                    Some(None) => self.o.fail("product", format!("operation {}: a secret key or the product is refused", m.op)),
                    None => (),
                }
            }
            "share" => {
                let Some(b) = array(&m.bytes) else { return };
                let keys: Vec<C::Scalar> = (1..o.route.len()).map(|h| self.keys[self.party(m.op, h)].clone()).collect();
                let r = self.safe("the sum of numbers", || {
                    let mut x = C::Scalar::try_clone_ff(&b).ok()?;
                    for k in &keys {
                        x = x.add_ff(k).ok()?;
                    }
                    Some(C::base().exp_ec(&x))
                });
                match r {
                    Some(Some(p)) => {
                        self.o.count("shared", 1);
                        let s = self.of(m.op)[..1].to_vec();
                        self.compare(&format!("operation {}: the key put together from numbers", m.op), &p, &s, false)
                    }
                    Some(None) => self.o.fail("sum", format!("operation {}: a number is refused", m.op)),
                    None => (),
                }
            }
            _ => (),
        }
    }
    fn go(mut self) -> Outcome {
        for (i, o) in self.plan.ops.iter().enumerate() {
            self.at(o.at_us, What::Start(i));
        }
        for (i, c) in self.plan.crash.iter().enumerate() {
            self.at(c.at_us, What::Crash(i));
        }
        while let Some((&k, _)) = self.q.iter().next() {
            let w = self.q.remove(&k).unwrap();
            self.now = k.0;
            match w {
                What::Start(i) => {
                    self.behaviour.num(i as u64 * 3);
                    self.start(i)
                }
                What::Crash(j) => {
                    self.behaviour.num(j as u64 * 3 + 1);
                    let p = self.plan.crash[j].party as usize % self.keys.len();
                    self.o.count("fault.crash", 1);
                    self.log(format!("{} restarts", p));
                    let k = self.keys[p].clone();
                    if let Some(k) = self.safe("loading a secret key", || own::<C>(&k.clone_line())) {
                        self.keys[p] = k;
                    }
                }
                What::Deliver(n, m) => {
                    self.behaviour.num(n * 3 + 2);
                    self.deliver(n, m)
                }
            }
        }
        self.o.nontrivial = ["agreed", "combined", "escrowed", "shared"].iter().any(|k| self.o.counters.contains_key(*k));
        for k in self.o.counters.iter() {
            self.behaviour.add(k.0.as_bytes());
            self.behaviour.num(*k.1);
        }
        self.o.state_hash = self.behaviour.get();
        let v: Vec<(String, String)> = self.o.violations.clone();
        for (c, d) in v {
            self.log(format!("VIOLATES [{}] {}", c, d));
        }
        self.o.sim_ns = self.now * 1000;
        self.o.log_hash = self.h.get();
        self.o
    }
}
fn run<C: Known>(plan: &Plan) -> Outcome
where
    C::Scalar: Clone,
{
    let secrets: Vec<Vec<u8>> = plan.parties.iter().map(|s| C::secret(*s)).collect();
    let mut o = Outcome::default();
    o.count(&format!("curve.{}", ["edwards", "montgomery", "secp256k1"][plan.curve as usize % 3]), 1);
    let keys = match guarded(|| secrets.iter().map(|s| own::<C>(s)).collect::<Vec<_>>()) {
        Ok(k) => k,
        Err(e) => {
            o.fail("panic", format!("loading a secret key panicked: {}", e));
            return o;
        }
    };
    Run::<C> { plan, q: BTreeMap::new(), seq: 0, sent: 0, now: 0, keys, secrets, got: BTreeMap::new(), o, h: Hash64::default(), behaviour: Hash64::default() }.go()
}

impl Sim for CurveSim {
    type Plan = Plan;
    type Worker = ();
    fn worker(&self) -> Result<(), String> {
        Ok(())
    }
    fn generate(&self, g: &mut Rng, idx: u64, tier: Tier) -> Plan {
        let big = idx % 8 == 0 || tier == Tier::Thorough && idx % 3 == 0;
        let np = 1 + g.idx(if big { 7 } else { 4 });
        let no = 1 + g.idx(if big { 16 } else { 6 });
        let span = *g.pick(&[0u64, 1_000, 20_000]);
        let mut ops = vec![];
        for _ in 0..no {
            let what = *g.pick(&["ring", "ring", "joint", "joint", "escrow", "share"]);
            let n = 1 + g.idx(if big { 6 } else { 3 });
            ops.push(Op { at_us: g.below(span + 1), what: what.into(), route: (0..n).map(|_| g.below(np as u64)).collect(), form: g.next() >> 12 });
        }
        let mut net = vec![];
        let p = *g.pick(&[0, 100, 100, 300]);
        for k in 0..3 * no as u64 {
            let mut n = Net { k, ..Net::default() };
            n.drop = g.chance(p / 4);
            if g.chance(p) {
                n.delay_us = g.below(30_000);
            }
            if g.chance(p) {
                n.dup_us = 1 + g.below(10_000);
            }
            if g.chance(p / 2) {
                n.mutate = 1 + g.below(64);
                n.mseed = g.next() >> 12;
            }
            if n.drop || n.delay_us > 0 || n.dup_us > 0 || n.mutate > 0 {
                net.push(n);
            }
        }
        let crash = (0..g.below(4)).map(|_| Crash { at_us: g.below(span + 40_000), party: g.below(np as u64) }).collect();
        Plan { curve: g.below(3), parties: (0..np as u64).map(|_| g.next() >> 12).collect(), lat_seed: g.next() >> 12, lat_max_us: *g.pick(&[1, 1_000, 10_000]), ops, net, crash }
    }
    fn run(&self, _w: &mut (), plan: &Plan) -> Outcome {
        if plan.parties.is_empty() {
            return Outcome::default();
        }
        match plan.curve % 3 {
            0 => run::<EdwardsPoint>(plan),
            1 => run::<MontgomeryPoint>(plan),
            _ => run::<secp256k1::PublicKey>(plan),
        }
    }
    fn rule(&self) -> String {
        "Seeded plans: a curve, 1-7 parties, 1-16 operations (a point passed along a route of 1-6 parties each of which applies its key; public keys combined into a joint key in order of arrival and a grouping of its own; a secret key handed over and multiplied; a secret key split into numbers and put together), points in either encoding, a latency per message, network faults per message (drop, delay, duplicate, alter), party restarts which leave only the encoded secret key. Results are compared with the curve libraries used directly. non-trivial: an operation came to its end unaltered; distinct by the sequence of events and the counts of outcomes.".into()
    }
    fn expected_counters(&self) -> Vec<&'static str> {
        vec!["fault.drop", "fault.delay", "fault.duplicate", "fault.mutate", "fault.crash", "curve.edwards", "curve.montgomery", "curve.secp256k1", "applied", "agreed", "combined", "escrowed", "shared", "refused", "altered_on_the_way"]
    }
    fn real_components(&self) -> Vec<&'static str> {
        vec!["rac (curves and their numbers)", "curve25519-dalek and libsecp256k1, through rac and as the reference"]
    }
    fn stub_components(&self) -> Vec<&'static str> {
        vec!["network (discrete-event queue)", "storage of the parties"]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["curve25519-dalek and libsecp256k1 are trusted".into(), "operations rac leaves unimplemented (inverses; sums of Montgomery points and their coordinate; differences over secp256k1) are not used; for numbers over secp256k1 which cancel out on the way nothing is compared, as its form has no zero".into()]
    }
}
