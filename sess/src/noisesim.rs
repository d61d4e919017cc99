//! C07: the handshake primitives against an independent Noise peer.
use crate::refnoise::{Sym, A, H};
use crate::xxsim::guarded;
use byteorder::{BigEndian, LittleEndian};
use serde::{Deserialize, Serialize};
use std::marker::PhantomData;
use vcore::*;
use vru_noise::{typenum::*, ChainingKey, Cipher, Config, Key, SymmetricState};

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Tok {
    /// 0 mix hash, 1 mix shared secret, 2 mix psk, 3 message (seal/open), 4 message in the appended-tag form
    pub t: u64,
    pub len: u64,
    /// 1: the network alters this message; 2: swaps it with an earlier one
    pub fault: u64,
    pub fseed: u64,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Plan {
    pub suite: u64,
    pub name_len: u64,
    pub seed: u64,
    /// 0: both ends real, 1: first is the model, 2: second is the model
    pub who: u64,
    pub toks: Vec<Tok>,
    pub transport: Vec<Tok>,
}

enum St<C: Config> {
    Ck(SymmetricState<C, ChainingKey<C>>),
    K0(SymmetricState<C, Key<C, U0>>),
    K1(SymmetricState<C, Key<C, U1>>),
    K2(SymmetricState<C, Key<C, U2>>),
    K3(SymmetricState<C, Key<C, U3>>),
    K4(SymmetricState<C, Key<C, U4>>),
    K5(SymmetricState<C, Key<C, U5>>),
    K6(SymmetricState<C, Key<C, U6>>),
    Gone,
}

trait Party {
    fn hash(&self) -> Vec<u8>;
    fn mix_hash(&mut self, d: &[u8]);
    fn mix_key(&mut self, d: &[u8]);
    fn mix_psk(&mut self, d: &[u8]);
    fn seal(&mut self, ext: bool, d: &[u8]) -> Vec<u8>;
    fn open(&mut self, d: &[u8]) -> Option<Vec<u8>>;
    fn split(&mut self, first: bool);
    fn tseal(&mut self, ad: &[u8], d: &[u8]) -> Vec<u8>;
    fn topen(&mut self, ad: &[u8], d: &[u8]) -> Option<Vec<u8>>;
}

struct Real<C: Config> {
    st: St<C>,
    ch: Option<Cipher<C, PhantomData<C>>>,
    hash: Vec<u8>,
}
macro_rules! each {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            St::Ck($x) => $e,
            St::K0($x) => $e,
            St::K1($x) => $e,
            St::K2($x) => $e,
            St::K3($x) => $e,
            St::K4($x) => $e,
            St::K5($x) => $e,
            St::K6($x) => $e,
            St::Gone => panic!("state used after a failure"),
        }
    };
}
impl<C: Config> Real<C> {
    fn new(name: &str) -> Self {
        Real { st: St::Ck(SymmetricState::new(name)), ch: None, hash: vec![] }
    }
    fn take(&mut self) -> St<C> {
        std::mem::replace(&mut self.st, St::Gone)
    }
}
impl<C: Config> Party for Real<C> {
    fn hash(&self) -> Vec<u8> {
        if self.ch.is_some() {
            return self.hash.clone();
        }
        each!(&self.st, s => s.hash().to_vec())
    }
    fn mix_hash(&mut self, d: &[u8]) {
        self.st = match self.take() {
            St::Ck(s) => St::Ck(s.mix_hash(d)),
            St::K0(s) => St::K0(s.mix_hash(d)),
            St::K1(s) => St::K1(s.mix_hash(d)),
            St::K2(s) => St::K2(s.mix_hash(d)),
            St::K3(s) => St::K3(s.mix_hash(d)),
            St::K4(s) => St::K4(s.mix_hash(d)),
            St::K5(s) => St::K5(s.mix_hash(d)),
            St::K6(s) => St::K6(s.mix_hash(d)),
            St::Gone => panic!(),
        }
    }
    fn mix_key(&mut self, d: &[u8]) {
        self.st = each!(self.take(), s => St::K0(s.mix_shared_secret(d)));
    }
    fn mix_psk(&mut self, d: &[u8]) {
        self.st = each!(self.take(), s => St::K0(s.mix_psk(d)));
    }
    fn seal(&mut self, ext: bool, d: &[u8]) -> Vec<u8> {
        let mut v = d.to_vec();
        macro_rules! go {
            ($s:expr, $n:ident) => {{
                if ext {
                    self.st = St::$n($s.encrypt_ext(&mut v));
                } else {
                    let (s, t) = $s.encrypt(&mut v);
                    v.extend_from_slice(&t);
                    self.st = St::$n(s);
                }
            }};
        }
        match self.take() {
            St::K0(s) => go!(s, K1),
            St::K1(s) => go!(s, K2),
            St::K2(s) => go!(s, K3),
            St::K3(s) => go!(s, K4),
            St::K4(s) => go!(s, K5),
            St::K5(s) => go!(s, K6),
            _ => panic!("no key or too many messages under one key"),
        }
        v
    }
    fn open(&mut self, d: &[u8]) -> Option<Vec<u8>> {
        let (b, t) = d.split_at(d.len() - 16);
        let mut v = b.to_vec();
        let t = generic_array::GenericArray::clone_from_slice(t);
        macro_rules! go {
            ($s:expr, $n:ident) => {
                match $s.decrypt(&mut v, t) {
                    Ok(s) => {
                        self.st = St::$n(s);
                        Some(v)
                    }
                    Err(_) => None,
                }
            };
        }
        match self.take() {
            St::K0(s) => go!(s, K1),
            St::K1(s) => go!(s, K2),
            St::K2(s) => go!(s, K3),
            St::K3(s) => go!(s, K4),
            St::K4(s) => go!(s, K5),
            St::K5(s) => go!(s, K6),
            _ => panic!("no key or too many messages under one key"),
        }
    }
    fn split(&mut self, first: bool) {
        let (c, h) = each!(self.take(), s => s.finish::<PhantomData<C>>());
        self.hash = h.to_vec();
        self.ch = Some(if first { c } else { c.swap() });
    }
    fn tseal(&mut self, ad: &[u8], d: &[u8]) -> Vec<u8> {
        let mut v = d.to_vec();
        self.ch.as_mut().unwrap().encrypt_ext(ad, &mut v);
        v
    }
    fn topen(&mut self, ad: &[u8], d: &[u8]) -> Option<Vec<u8>> {
        let mut v = d.to_vec();
        self.ch.as_mut().unwrap().decrypt_ext(ad, &mut v).ok().map(|()| v)
    }
}

struct Model {
    s: Sym,
    /// (send key, send counter, receive key, receive counter)
    t: Option<(Vec<u8>, u64, Vec<u8>, u64)>,
}
impl Party for Model {
    fn hash(&self) -> Vec<u8> {
        self.s.h.clone()
    }
    fn mix_hash(&mut self, d: &[u8]) {
        self.s.mix_hash(d)
    }
    fn mix_key(&mut self, d: &[u8]) {
        self.s.mix_key(d)
    }
    fn mix_psk(&mut self, d: &[u8]) {
        self.s.mix_key_and_hash(d)
    }
    fn seal(&mut self, _e: bool, d: &[u8]) -> Vec<u8> {
        self.s.seal(d)
    }
    fn open(&mut self, d: &[u8]) -> Option<Vec<u8>> {
        self.s.open(d)
    }
    fn split(&mut self, first: bool) {
        let (a, b) = self.s.split();
        self.t = Some(if first { (a, 0, b, 0) } else { (b, 0, a, 0) });
    }
    fn tseal(&mut self, ad: &[u8], d: &[u8]) -> Vec<u8> {
        let t = self.t.as_mut().unwrap();
        t.1 += 1;
        self.s.aead.seal(&t.0, t.1 - 1, ad, d)
    }
    fn topen(&mut self, ad: &[u8], d: &[u8]) -> Option<Vec<u8>> {
        let t = self.t.as_mut().unwrap();
        let r = self.s.aead.open(&t.2, t.3, ad, d)?;
        t.3 += 1;
        Some(r)
    }
}

fn suite(i: u64) -> (H, A) {
    [(H::Sha512, A::AesGcm), (H::Sha3_256, A::ChaCha), (H::Sha256, A::ChaCha), (H::Sha3_512, A::ChaCha), (H::Sha256, A::AesGcm), (H::Sha512, A::ChaCha), (H::Sha3_256, A::AesGcm)][(i % 7) as usize]
}
fn real(i: u64, name: &str) -> Box<dyn Party> {
    use aes_gcm::Aes256Gcm as G;
    use chacha20poly1305::ChaCha20Poly1305 as P;
    match i % 7 {
        0 => Box::new(Real::<(sha2::Sha512, BigEndian, G)>::new(name)),
        1 => Box::new(Real::<(sha3::Sha3_256, LittleEndian, P)>::new(name)),
        2 => Box::new(Real::<(sha2::Sha256, LittleEndian, P)>::new(name)),
        3 => Box::new(Real::<(sha3::Sha3_512, LittleEndian, P)>::new(name)),
        4 => Box::new(Real::<(sha2::Sha256, BigEndian, G)>::new(name)),
        5 => Box::new(Real::<(sha2::Sha512, LittleEndian, P)>::new(name)),
        _ => Box::new(Real::<(sha3::Sha3_256, BigEndian, G)>::new(name)),
    }
}

pub struct NoiseSim;
impl Sim for NoiseSim {
    type Plan = Plan;
    type Worker = ();
    fn worker(&self) -> Result<(), String> {
        Ok(())
    }
    fn generate(&self, g: &mut Rng, _idx: u64, _t: Tier) -> Plan {
        let (h, _) = suite(0);
        let _ = h;
        let lens = [0u64, 1, 16, 31, 32, 33, 47, 48, 49, 55, 56, 63, 64, 65, 71, 72, 73, 111, 112, 113, 119, 120, 121, 127, 128, 129, 135, 136, 137, 144, 255, 256, 257, 271, 272, 273, 400, 1120, 4000];
        let n = 1 + g.idx(16);
        let faulty = g.chance(350);
        let mut toks = vec![];
        for _ in 0..n {
            let t = *g.pick(&[0, 1, 1, 2, 3, 3, 3, 4, 4]);
            let len = if g.chance(800) { *g.pick(&lens) } else { g.below(600) };
            let fault = if faulty && t >= 3 && g.chance(200) { 1 + g.below(2) } else { 0 };
            toks.push(Tok { t, len: if t == 1 || t == 2 { *g.pick(&[32, 32, 32, 0, 56, 64, 200]) } else { len }, fault, fseed: g.next() >> 12 });
        }
        let m = g.idx(8);
        let transport = (0..m).map(|_| Tok { t: g.below(2), len: if g.chance(700) { *g.pick(&lens) } else { g.below(600) }, fault: if g.chance(200) { 1 + g.below(2) } else { 0 }, fseed: g.next() >> 12 }).collect();
        Plan { suite: g.below(7), name_len: *g.pick(&[0, 1, 20, 31, 32, 33, 36, 63, 64, 65, 72, 100, 136, 200]), seed: g.next() >> 12, who: g.below(3), toks, transport }
    }
    fn run(&self, _w: &mut (), p: &Plan) -> Outcome {
        let mut o = Outcome::default();
        let mut h = Hash64::default();
        let mut b = Hash64::default();
        b.num(p.suite % 7);
        let mut log: Vec<String> = vec![];
        let mut say = |s: String, log: &mut Vec<String>| {
            h.add(s.as_bytes());
            log.push(s);
        };
        let (hh, aa) = suite(p.suite);
        let mut g = Rng::new(p.seed ^ 0x6e6f697365);
        let name: String = (0..p.name_len).map(|_| (b'a' + g.below(26) as u8) as char).collect();
        let mk = |model: bool| -> Result<Box<dyn Party>, String> {
            if model {
                Ok(Box::new(Model { s: Sym::new(hh, aa, name.as_bytes()), t: None }))
            } else {
                guarded(|| real(p.suite, &name))
            }
        };
        let (a, c) = match (mk(p.who % 3 == 1), mk(p.who % 3 == 2)) {
            (Ok(a), Ok(c)) => (a, c),
            (Err(e), _) | (_, Err(e)) => {
                o.fail("panic", e);
                return o;
            }
        };
        let mut ps = [a, c];
        // a silent third side, always the model, fed what was actually sent
        let mut oracle = Model { s: Sym::new(hh, aa, name.as_bytes()), t: None };
        say(format!("suite {:?}/{:?}, name of {} bytes, roles {}", hh, aa, p.name_len, p.who % 3), &mut log);
        let mut keyed = false;
        let mut used = 0;
        let mut sealed = 0u64;
        let mut dead = false;
        let mut history: Vec<Vec<u8>> = vec![];
        let mut from = 0;
        'run: for (i, t) in p.toks.iter().enumerate() {
            let d = g.bytes(t.len as usize);
            let kind = if t.t >= 3 && !keyed { 0 } else { t.t };
            let kind = if kind >= 3 && used >= 6 { 1 } else { kind };
            b.num(kind * 1000 + t.len);
            match kind {
                0..=2 => {
                    for q in ps.iter_mut() {
                        if let Err(e) = guarded(|| match kind {
                            0 => q.mix_hash(&d),
                            1 => q.mix_key(&d),
                            _ => q.mix_psk(&d),
                        }) {
                            o.fail("panic", format!("token {}: {}", i, e));
                            break 'run;
                        }
                    }
                    match kind {
                        0 => oracle.mix_hash(&d),
                        1 => oracle.mix_key(&d),
                        _ => oracle.mix_psk(&d),
                    }
                    if kind > 0 {
                        keyed = true;
                        used = 0;
                        o.count(if kind == 1 { "mix_shared_secret" } else { "mix_psk" }, 1);
                    }
                    say(format!("token {}: {} {} bytes", i, ["mix hash", "mix shared secret", "mix psk"][kind as usize], d.len()), &mut log);
                }
                _ => {
                    let m = match guarded(|| ps[from].seal(kind == 4, &d)) {
                        Ok(m) => m,
                        Err(e) => {
                            o.fail("panic", format!("token {}: {}", i, e));
                            break 'run;
                        }
                    };
                    let want = oracle.s.seal(&d);
                    say(format!("token {}: side {} seals {} bytes: {}", i, from, d.len(), short(&m)), &mut log);
                    if m != want {
                        o.fail("noise.message", format!("token {} ({} bytes): message differs from the specification's", i, d.len()));
                        break 'run;
                    }
                    let mut w = m.clone();
                    match t.fault {
                        1 => {
                            let mut r = Rng::new(t.fseed);
                            let k = r.idx(w.len());
                            w[k] ^= 1 << r.below(8);
                        }
                        2 => {
                            if let Some(x) = history.iter().find(|x| x.len() == w.len() && **x != w) {
                                w = x.clone();
                            }
                        }
                        _ => {}
                    }
                    history.push(m.clone());
                    used += 1;
                    sealed += 1;
                    let got = match guarded(|| ps[1 - from].open(&w)) {
                        Ok(x) => x,
                        Err(e) => {
                            o.fail("panic", format!("token {}: {}", i, e));
                            break 'run;
                        }
                    };
                    if w != m {
                        o.count("fault.altered_message", 1);
                        if got.is_some() {
                            o.fail("noise.accepted", format!("token {}: an altered message was accepted", i));
                        }
                        say(format!("token {}: altered on the way, {}", i, if got.is_some() { "accepted" } else { "refused" }), &mut log);
                        dead = true;
                        break 'run;
                    }
                    if got.as_ref() != Some(&d) {
                        o.fail("noise.refused", format!("token {} ({} bytes): an unaltered message was {}", i, d.len(), if got.is_some() { "opened to other bytes" } else { "refused" }));
                        break 'run;
                    }
                    from = 1 - from;
                }
            }
            for (k, q) in ps.iter().enumerate() {
                if q.hash() != oracle.hash() {
                    o.fail("noise.hash", format!("after token {}: the transcript hash of side {} differs from the specification's", i, k));
                    break 'run;
                }
            }
        }
        if !dead && o.violations.is_empty() {
            let mut ok = true;
            for k in 0..2 {
                if let Err(e) = guarded(|| ps[k].split(k == 0)) {
                    o.fail("panic", e);
                    ok = false;
                }
            }
            if ok {
                for (k, q) in ps.iter().enumerate() {
                    if q.hash() != oracle.hash() {
                        o.fail("noise.final_hash", format!("final hash of side {}", k));
                    }
                }
                oracle.split(true);
                let (k0, _, k1, _) = oracle.t.clone().unwrap();
                let mut n = [0u64; 2];
                for (i, t) in p.transport.iter().enumerate() {
                    let d = g.bytes(t.len as usize);
                    let adl = g.idx(30);
                    let ad = g.bytes(adl);
                    let from = (t.t % 2) as usize;
                    let Ok(m) = guarded(|| ps[from].tseal(&ad, &d)) else {
                        o.fail("panic", "transport seal");
                        break;
                    };
                    if m != aa.seal(if from == 0 { &k0 } else { &k1 }, n[from], &ad, &d) {
                        o.fail("noise.transport", format!("record {} from side {} differs from the specification's", i, from));
                        break;
                    }
                    n[from] += 1;
                    if t.fault == 1 {
                        // damaged first, then repeated unaltered
                        let mut w = m.clone();
                        let mut r = Rng::new(t.fseed);
                        let k = r.idx(w.len());
                        w[k] ^= 1 << r.below(8);
                        o.count("fault.altered_record", 1);
                        if !matches!(guarded(|| ps[1 - from].topen(&ad, &w)), Ok(None)) {
                            o.fail("noise.accepted", format!("transport record {}: altered and accepted", i));
                        }
                    }
                    match guarded(|| ps[1 - from].topen(&ad, &m)) {
                        Ok(Some(x)) if x == d => {}
                        _ => {
                            o.fail("noise.transport_refused", format!("transport record {} from side {}", i, from));
                            break;
                        }
                    }
                    say(format!("transport record {} from side {}: {} bytes", i, from, d.len()), &mut log);
                    o.count("transport_records", 1);
                }
                o.count("completed", 1);
            }
        }
        o.count("messages", sealed);
        o.count(&format!("suite_{}", p.suite % 7), 1);
        o.count(&format!("roles_{}", p.who % 3), 1);
        o.nontrivial = sealed > 0;
        o.sim_ns = 0;
        for (c, d) in &o.violations {
            log.push(format!("VIOLATES [{}] {}", c, d));
        }
        o.log = log;
        o.log_hash = h.get();
        b.num(p.name_len);
        o.state_hash = b.get();
        o
    }
    fn rule(&self) -> String {
        "Seeded token sequences (mix hash / shared secret / psk / message) over 7 cipher suites, protocol names of 0..200 bytes, payloads around the hash block sizes, either or both ends real, with a message altered or replaced in transit in a third of the plans, then transport records with damaged copies. Non-trivial: at least one message was sealed. Distinct: by suite, name length and the sequence of (token, length).".into()
    }
    fn expected_counters(&self) -> Vec<&'static str> {
        vec!["messages", "mix_psk", "mix_shared_secret", "completed", "transport_records", "fault.altered_message", "fault.altered_record", "suite_0", "suite_6", "roles_0", "roles_1", "roles_2"]
    }
    fn real_components(&self) -> Vec<&'static str> {
        vec!["vru-noise SymmetricState, Cipher, hashing and key derivation"]
    }
    fn stub_components(&self) -> Vec<&'static str> {
        vec!["independent Noise peer (own HMAC, HKDF, symmetric state)", "network"]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["shared secrets are given values: the Diffie-Hellman functions are not part of vru-noise".into(), "at most six messages under one handshake key".into()]
    }
}
