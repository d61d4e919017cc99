//! C01-C04: many parties, many concurrent handshakes, a simulated network
//! and an adversary with keys of its own. Honest sides run the real code;
//! each is shadowed by the reference model fed the same messages.
use crate::real::{combos, Chan, Combo, Fin};
use crate::refnoise::A;
use crate::refxx::{self, Done, Knobs, RefInit, RefResp, CT, PK, TAG};
use rac::{Array, LineValid};
use serde::{Deserialize, Serialize};
use std::collections::{BinaryHeap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vcore::*;
use vru_session::handshake::{xx, Identity, PublicKey, SecretKey};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Prop {
    C01,
    C02,
    C03,
    C04,
}

#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Session {
    pub init: u64,
    pub resp: u64,
    /// party whose identity is dialled
    pub dial: u64,
    pub combo: u64,
    pub start_us: u64,
    pub seed: u64,
    /// 0 honest; otherwise an adversary plays the initiator
    pub adv_init: u64,
    /// 0 honest; otherwise an adversary plays the responder
    pub adv_resp: u64,
    /// the identity the responder goes by: 0 of its key, odd of another
    /// party, even its own with one bit altered
    #[serde(default)]
    pub alias: u64,
}

/// what the network does with the k-th message
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Net {
    pub k: u64,
    pub drop: bool,
    pub delay_us: u64,
    pub dup_us: u64,
    /// 0 none
    pub mutate: u64,
    pub mseed: u64,
}

/// the adversary delivers the recorded message m to session s
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Inject {
    pub at_us: u64,
    pub m: u64,
    pub s: u64,
    pub mutate: u64,
    pub mseed: u64,
}

/// a process restart: sessions of the party in progress are forgotten
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Crash {
    pub at_us: u64,
    pub party: u64,
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Plan {
    pub parties: Vec<u64>,
    pub sessions: Vec<Session>,
    pub lat_seed: u64,
    pub lat_max_us: u64,
    pub net: Vec<Net>,
    pub inject: Vec<Inject>,
    pub crash: Vec<Crash>,
    /// random records thrown at finished channels
    pub hostile_records: u64,
}

struct Party {
    seed: Vec<u8>,
    pk: PublicKey,
    sk: SecretKey,
    pi: Identity,
    bytes: Vec<u8>,
}

pub struct XxSim {
    pub prop: Prop,
    combos: Vec<Combo>,
}

fn seed_bytes(tag: u64, seed: u64, n: usize) -> Vec<u8> {
    Rng::new(mix(tag, seed)).bytes(n)
}

fn party(seed: u64) -> Party {
    let mut s = seed_bytes(0x7061727479, seed, 96);
    if seed % 16 == 0 {
        // boundary key material
        let b = [0u8, 0xff, 0x55, 0x01][(seed / 16 % 4) as usize];
        s[..32].iter_mut().for_each(|x| *x = b);
    }
    let (pk, sk) = PublicKey::gen(Array::from_slice(&s));
    let pi = pk.identity();
    let bytes = pk.compress().clone_line().to_vec();
    Party { seed: s, pk, sk, pi, bytes }
}

const MUTATIONS: u64 = 12;
fn mutate(kind: u64, seed: u64, stage: usize, c: &Combo, m: &[u8], others: &[(usize, usize, Vec<u8>)]) -> Vec<u8> {
    let mut r = Rng::new(mix(0x6d7574, seed));
    let fields: Vec<(usize, usize)> = match stage {
        0 => vec![(0, 32), (32, PK)],
        1 => vec![(0, CT), (CT, CT + c.p), (CT + c.p, CT + c.p + TAG), (CT + c.p + TAG, CT + c.p + TAG + 32), (CT + c.p + TAG + 32, CT + c.p + TAG + PK), (CT + c.p + TAG + PK, m.len() - TAG), (m.len() - TAG, m.len())],
        2 => {
            let a = CT + c.q;
            vec![(0, CT), (CT, a), (a, a + TAG), (a + TAG, a + TAG + CT), (a + TAG + CT, a + TAG + CT + PK), (a + TAG + CT + PK, a + 2 * TAG + CT + PK), (a + 2 * TAG + CT + PK, m.len() - TAG), (m.len() - TAG, m.len())]
        }
        _ => vec![(0, CT), (CT, m.len() - TAG), (m.len() - TAG, m.len())],
    };
    let fields: Vec<_> = fields.into_iter().filter(|(a, b)| b > a && *b <= m.len()).collect();
    let mut v = m.to_vec();
    let (a, b) = *r.pick(&fields);
    let point = match stage {
        0 => Some(0),
        1 => Some(CT + c.p + TAG),
        _ => None,
    };
    match kind {
        1 | 2 => {
            let i = a + r.idx(b - a);
            v[i] ^= 1 << r.below(8);
        }
        3 => v[a..b].iter_mut().for_each(|x| *x = 0),
        4 => r.fill(&mut v[a..b]),
        5 => {
            let same: Vec<_> = others.iter().filter(|(_, st, o)| *st == stage && o.len() == m.len()).collect();
            if !same.is_empty() {
                let o = &r.pick(&same).2;
                v[a..b].copy_from_slice(&o[a..b]);
            }
        }
        6 => r.fill(&mut v),
        7 => v.iter_mut().for_each(|x| *x = 0xff),
        8 => {
            // an equivalent point: add a small-order component
            if let Some(p) = point {
                use curve25519_dalek::{constants::EIGHT_TORSION, edwards::CompressedEdwardsY};
                if let Some(e) = CompressedEdwardsY::from_slice(&v[p..p + 32]).decompress() {
                    let t = EIGHT_TORSION[1 + r.idx(7)];
                    v[p..p + 32].copy_from_slice((e + t).compress().as_bytes());
                }
            } else {
                let i = a + r.idx(b - a);
                v[i] = v[i].wrapping_add(1);
            }
        }
        9 => {
            if let Some(p) = point {
                let low = [[0u8; 32], { let mut x = [0u8; 32]; x[0] = 1; x }, { let mut x = [0xffu8; 32]; x[0] = 0xec; x[31] = 0x7f; x }, { let mut x = [0xffu8; 32]; x[0] = 0xee; x[31] = 0x7f; x }];
                v[p..p + 32].copy_from_slice(&low[r.idx(4)]);
            } else {
                v[a..b].reverse();
            }
        }
        10 => {
            // least significant bits of a lattice ciphertext or key
            let (a, b) = *fields.iter().max_by_key(|(a, b)| b - a).unwrap();
            let i = if stage == 0 { a + r.idx(b - a) } else if r.chance(500) { CT - 96 + r.idx(96) } else { r.idx(CT) };
            v[i.min(m.len() - 1)] ^= 1;
        }
        11 => {
            let n = 1 + r.idx(8);
            for _ in 0..n {
                let i = r.idx(v.len());
                v[i] = v[i].wrapping_add(1 + r.below(255) as u8);
            }
        }
        _ => {}
    }
    v
}

enum InitState {
    W1(xx::InitiatorsEphemeral),
    W3(xx::InitiatorsFinal),
    Over,
}
struct Init {
    party: usize,
    state: InitState,
    shadow: Option<RefInit>,
    adv: Option<RefInit>,
    sent: Vec<Vec<u8>>,
    got: Vec<Vec<u8>>,
    peer: Option<Vec<u8>>,
    p: Vec<u8>,
    done: Option<(Fin<Chan>, Vec<u8>)>,
    adv_done: Option<Done>,
    adv_over: bool,
    failed: Option<String>,
    seed: Vec<u8>,
    payloads: (Vec<u8>, Vec<u8>),
    dead: bool,
}
enum RespState {
    W2(xx::RespondersEphemeral),
    Over,
}
struct Resp {
    session: usize,
    party: usize,
    state: RespState,
    shadow: Option<RefResp>,
    adv: Option<RefResp>,
    sent: Vec<Vec<u8>>,
    got: Vec<Vec<u8>>,
    peer: Option<Vec<u8>>,
    q: Vec<u8>,
    r: Vec<u8>,
    done: Option<Fin<Chan>>,
    done_hash: Vec<u8>,
    adv_done: Option<Done>,
    failed: Option<String>,
    seed: Vec<u8>,
    payloads: (Vec<u8>, Vec<u8>),
    dead: bool,
    /// the identity an honest responder goes by
    pi: Option<Vec<u8>>,
}

#[derive(PartialEq, Eq, PartialOrd, Ord)]
enum What {
    Start(usize),
    Deliver { stage: usize, session: usize, inst: usize, msg: usize, bytes: Vec<u8> },
    Inject(usize),
    Crash(usize),
}
#[derive(PartialEq, Eq)]
struct Ev(u64, u64, What);
impl Ord for Ev {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.0, o.1).cmp(&(self.0, self.1))
    }
}
impl PartialOrd for Ev {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}

thread_local!(static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

struct Run<'a> {
    sim: &'a XxSim,
    plan: &'a Plan,
    parties: HashMap<u64, Party>,
    q: BinaryHeap<Ev>,
    seq: u64,
    now: u64,
    inits: Vec<Option<Init>>,
    resps: Vec<Resp>,
    /// (session, stage, bytes as sent)
    wire: Vec<(usize, usize, Vec<u8>)>,
    o: Outcome,
    h: Hash64,
    behaviour: Hash64,
    adv_pks: Vec<Vec<u8>>,
}

impl XxSim {
    pub fn new(prop: Prop) -> Self {
        XxSim { prop, combos: combos() }
    }
    fn combo(&self, i: u64) -> &Combo {
        &self.combos[(i % self.combos.len() as u64) as usize]
    }
}

impl<'a> Run<'a> {
    fn log(&mut self, s: String) {
        self.h.add(s.as_bytes());
        self.h.num(self.now);
        if self.o.log.len() < 400 {
            self.o.log.push(format!("t={}us {}", self.now, s));
        }
    }
    fn at(&mut self, t: u64, w: What) {
        self.seq += 1;
        self.q.push(Ev(t, self.seq, w));
    }
    fn party(&mut self, i: u64) -> &Party {
        let n = self.plan.parties.len().max(1) as u64;
        let seed = self.plan.parties.get((i % n) as usize).copied().unwrap_or(1);
        self.parties.entry(i % n).or_insert_with(|| party(seed))
    }
    fn pidx(&self, i: u64) -> usize {
        (i % self.plan.parties.len().max(1) as u64) as usize
    }
    /// key material of the adversary playing a role in session s
    fn adv_seed(s: &Session, role: u64) -> Vec<u8> {
        seed_bytes(0x616476 + role, s.seed, 96)
    }
    fn send(&mut self, session: usize, inst: usize, stage: usize, bytes: Vec<u8>) {
        let k = self.wire.len();
        self.wire.push((session, stage, bytes.clone()));
        let lat = 1 + Rng::new(mix(self.plan.lat_seed, k as u64)).below(self.plan.lat_max_us.max(1));
        self.log(format!("send #{} session {} message {} {}", k, session, stage, short(&bytes)));
        let f = self.plan.net.iter().find(|n| n.k == k as u64).cloned().unwrap_or_default();
        let mut b = bytes.clone();
        if f.mutate != 0 {
            let c = self.sim.combo(self.plan.sessions[session].combo);
            b = mutate(f.mutate, f.mseed, stage, c, &bytes, &self.wire);
            if b != bytes {
                self.o.count(&format!("fault.mutate_{}", f.mutate), 1);
            }
        }
        if f.dup_us > 0 {
            self.o.count("fault.duplicate", 1);
            self.at(self.now + lat + f.dup_us, What::Deliver { stage, session, inst, msg: k, bytes: b.clone() });
        }
        if f.delay_us > 0 {
            self.o.count("fault.delay", 1);
        }
        if f.drop {
            self.o.count("fault.drop", 1);
            self.log(format!("drop #{}", k));
        } else {
            self.at(self.now + lat + f.delay_us, What::Deliver { stage, session, inst, msg: k, bytes: b });
        }
    }

    fn start(&mut self, si: usize) {
        let s = self.plan.sessions[si].clone();
        let c = self.sim.combo(s.combo);
        let seed = seed_bytes(0x696e6974, s.seed, 160);
        let dial_pi = self.party(s.dial).pi.clone();
        let party = self.pidx(s.init);
        let payloads = (seed_bytes(11, s.seed, c.q), seed_bytes(12, s.seed, c.r));
        let mut i = Init { party, state: InitState::Over, shadow: None, adv: None, sent: vec![], got: vec![], peer: None, p: vec![], done: None, adv_done: None, adv_over: false, failed: None, seed: seed.clone(), payloads, dead: false };
        let mut dial = dial_pi.as_ref().to_vec();
        if s.adv_resp == 1 {
            // a conforming responder outside the repository, dialled by its own identity
            dial = refxx::KeyPair::new(&Self::adv_seed(&s, 1)).identity();
        }
        let m0;
        if s.adv_init == 0 {
            let pi: Identity = if s.adv_resp == 1 { PublicKey::gen(Array::from_slice(&Self::adv_seed(&s, 1))).0.identity() } else { dial_pi };
            let (st, m) = match guarded(|| (c.out0)(&seed[..96], &pi)) {
                Ok(x) => x,
                Err(e) => {
                    self.o.fail("panic.out0", e);
                    return;
                }
            };
            let p = self.party(s.init);
            let (sh, rm) = RefInit::new(&p.seed.clone(), &seed[..96], &dial, Knobs::default());
            if rm != m {
                self.o.fail("refine.message0", format!("session {}: message 0 differs from the model", si));
            }
            i.state = InitState::W1(st);
            i.shadow = Some(sh);
            m0 = m;
        } else {
            let mut k = Knobs::default();
            match s.adv_init {
                1 => {}
                2 => k.pi = Some(self.party(s.dial + 1).pi.as_ref().to_vec()),
                3 => k.present = Some(self.bad_static(s.seed)),
                4 => k.present = Some(self.party(s.init).bytes.clone()),
                5 => k.e_point = Some(bad_point(s.seed)),
                6 => k.e_point = Some(low_point(s.seed)),
                7 => k.pi = Some(vec![0; 32]),
                _ => k.skip_pi = true,
            }
            let ks = Self::adv_seed(&s, 0);
            self.adv_pks.push(refxx::KeyPair::new(&ks).bytes);
            let resp_pi = self.party(s.resp).pi.as_ref().to_vec();
            let (a, m) = RefInit::new(&ks, &seed[..96], &resp_pi, k);
            let mut a = a;
            a.honest = false;
            i.adv = Some(a);
            m0 = m;
            self.o.count(&format!("adversary.initiator_{}", s.adv_init), 1);
        }
        i.sent.push(m0.clone());
        self.inits[si] = Some(i);
        self.log(format!("session {} starts: party {} dials {} towards {}", si, s.init, s.dial, s.resp));
        self.send(si, 0, 0, m0);
    }
    fn bad_static(&mut self, seed: u64) -> Vec<u8> {
        let mut b = self.party(seed).bytes.clone();
        b[..32].copy_from_slice(&bad_point(seed));
        b
    }

    fn deliver0(&mut self, si: usize, b: &[u8], replied: usize) {
        let s = self.plan.sessions[si].clone();
        let c = self.sim.combo(s.combo);
        if b.len() != PK {
            return;
        }
        let inst = self.resps.len();
        let seed = seed_bytes(0x72657370, mix(s.seed, inst as u64), 160);
        let payloads = (seed_bytes(13, mix(s.seed, inst as u64), c.p), seed_bytes(14, mix(s.seed, inst as u64), c.s));
        let party = self.pidx(s.resp);
        let mut r = Resp { session: si, party, state: RespState::Over, shadow: None, adv: None, sent: vec![], got: vec![b.to_vec()], peer: None, q: vec![], r: vec![], done: None, done_hash: vec![], adv_done: None, failed: None, seed: seed.clone(), payloads: payloads.clone(), dead: false, pi: None };
        if s.adv_resp == 0 {
            let p = self.party(s.resp);
            let pseed = p.seed.clone();
            let mut knobs = Knobs::default();
            let mut pi = p.pi.clone();
            if s.alias > 0 {
                self.o.count("responder_by_another_identity", 1);
                let mut x = if s.alias % 2 == 1 { self.party(s.alias / 2).pi.as_ref().to_vec() } else { pi.as_ref().to_vec() };
                if s.alias % 2 == 0 {
                    x[(s.alias / 16 % 32) as usize] ^= 1 << (s.alias / 2 % 8);
                }
                pi = bincode::deserialize(&x).expect("an identity");
                knobs.pi = Some(x);
            }
            r.pi = Some(pi.as_ref().to_vec());
            let p = self.party(s.resp);
            let res = guarded(|| (c.take0_out1)(&seed[..128], &pi, &p.pk, &p.sk, b, &payloads.0));
            let model = RefResp::new(&pseed, &seed[..96], &seed[96..128], b, &payloads.0, knobs);
            match (res, model) {
                (Ok((st, m1)), Some((sh, rm))) => {
                    if rm != m1 {
                        self.o.fail("refine.message1", format!("session {}: message 1 differs from the model", si));
                    }
                    r.state = RespState::W2(st);
                    r.shadow = Some(sh);
                    r.sent.push(m1.clone());
                    self.resps.push(r);
                    self.log(format!("responder instance {} of session {} answers", inst, si));
                    self.send(replied, inst, 1, m1);
                }
                (Ok(_), None) => {
                    // accepted without a point: it cannot complete, nothing to check here
                    r.failed = Some("no point".into());
                    self.resps.push(r);
                    self.log(format!("responder instance {} of session {} swallowed a non-point", inst, si));
                }
                (Err(e), None) => {
                    self.o.known.push(("message0-point".into(), "take0_out1 panics on a message 0 whose first 32 bytes are not a curve point".into()));
                    r.failed = Some("panic".into());
                    self.resps.push(r);
                    self.log(format!("responder instance {} of session {} panics on a non-point (known finding): {}", inst, si, first_line(&e)));
                }
                (Err(e), Some(_)) => {
                    self.o.fail("panic.take0_out1", format!("session {}: {}", si, first_line(&e)));
                    r.failed = Some("panic".into());
                    self.resps.push(r);
                }
            }
        } else {
            let mut k = Knobs::default();
            let dialled = self.party(s.dial);
            let (dpi, dbytes) = (dialled.pi.as_ref().to_vec(), dialled.bytes.clone());
            match s.adv_resp {
                1 => {}
                2 => k.pi = Some(dpi),
                3 => {
                    k.pi = Some(dpi);
                    k.present = Some(dbytes);
                }
                4 => {
                    k.pi = Some(dpi);
                    k.present = Some(self.bad_static(s.seed));
                }
                5 => {
                    k.pi = Some(dpi);
                    k.e_point = Some(bad_point(s.seed));
                }
                6 => {
                    k.pi = Some(dpi);
                    k.present = Some(dbytes);
                    k.e_point = Some(low_point(s.seed));
                }
                _ => k.skip_pi = true,
            }
            let ks = Self::adv_seed(&s, 1);
            self.adv_pks.push(refxx::KeyPair::new(&ks).bytes);
            self.o.count(&format!("adversary.responder_{}", s.adv_resp), 1);
            if let Some((a, m1)) = RefResp::new(&ks, &seed[..96], &seed[96..128], b, &payloads.0, k) {
                r.adv = Some(a);
                r.sent.push(m1.clone());
                self.resps.push(r);
                self.log(format!("adversary answers as responder instance {} of session {}", inst, si));
                self.send(replied, inst, 1, m1);
            } else {
                self.resps.push(r);
            }
        }
    }

    fn deliver1(&mut self, si: usize, inst: usize, b: &[u8]) {
        let s = self.plan.sessions[si].clone();
        let c = self.sim.combo(s.combo);
        if b.len() != CT + c.p + TAG + 2 * PK + TAG {
            return;
        }
        let plan_party = self.party(s.init) as *const Party;
        // parties are never removed from the map during a run
        let p: &Party = unsafe { &*plan_party };
        let Some(mut i) = self.inits[si].take() else { return };
        if i.dead {
            self.inits[si] = Some(i);
            return;
        }
        if let Some(a) = &mut i.adv {
            if !i.adv_over && i.got.is_empty() {
                i.got.push(b.to_vec());
                if let Some((_, _, m2)) = a.step1(&i.seed[96..160], b, c.p, &i.payloads.0, &i.payloads.1) {
                    i.sent.push(m2.clone());
                    self.inits[si] = Some(i);
                    self.log(format!("adversary continues session {} as initiator", si));
                    self.send(si, inst, 2, m2);
                    return;
                }
                i.adv_over = true;
            }
            self.inits[si] = Some(i);
            return;
        }
        match std::mem::replace(&mut i.state, InitState::Over) {
            InitState::W1(st) => {
                i.got.push(b.to_vec());
                let sh = i.shadow.as_mut().unwrap();
                let model = sh.step1(&i.seed[96..160], b, c.p, &i.payloads.0, &i.payloads.1);
                let res = guarded(|| (c.take1_out2)(&i.seed[96..160], st, &p.pk, &p.sk, b, &i.payloads.0, &i.payloads.1));
                match res {
                    Err(e) => {
                        self.o.fail("panic.take1_out2", format!("session {}: {}", si, first_line(&e)));
                        i.failed = Some("panic".into());
                    }
                    Ok(Err(e)) => {
                        self.log(format!("initiator of session {} refuses message 1: {}", si, e));
                        self.o.count("refused.message1", 1);
                        if model.is_some() {
                            self.o.fail("refine.refused1", format!("session {}: the initiator refused a message 1 the model accepts: {}", si, e));
                        }
                        i.failed = Some(e);
                    }
                    Ok(Ok((st, pk, pp, m2))) => {
                        let peer = pk.compress().clone_line().to_vec();
                        self.log(format!("initiator of session {} accepts message 1 from {}", si, short(&peer)));
                        // identity pinning, independent of the model
                        let dialled = i.shadow.as_ref().unwrap().dial.clone();
                        if refxx::identity(&peer) != dialled {
                            self.o.fail("identity.initiator", format!("session {}: the initiator dialled {} and accepted {}", si, short(&dialled), short(&refxx::identity(&peer))));
                        }
                        // a responder by another identity must not be taken for the dialled one
                        if let Some(ri) = self.resps.iter().position(|r| r.sent.first().map(|m| m.as_slice()) == Some(b) && r.pi.as_ref().map(|x| *x != dialled).unwrap_or(false)) {
                            self.o.fail("identity.responder", format!("session {}: the initiator dialled {} and accepted responder instance {}, which goes by another identity", si, short(&dialled), ri));
                        }
                        match model {
                            None => self.o.fail("accept.message1", format!("session {}: the initiator accepted a message 1 the model refuses", si)),
                            Some((mp, mpp, mm2)) => {
                                if mp != peer || mpp != pp || mm2 != m2 {
                                    self.o.fail("refine.message2", format!("session {}: key {} payload {} message {}", si, mp == peer, mpp == pp, mm2 == m2));
                                }
                            }
                        }
                        i.peer = Some(peer);
                        i.p = pp;
                        i.state = InitState::W3(st);
                        i.sent.push(m2.clone());
                        self.inits[si] = Some(i);
                        self.send(si, inst, 2, m2);
                        return;
                    }
                }
            }
            st => {
                i.state = st;
                self.o.count("ignored_out_of_turn", 1);
            }
        }
        self.inits[si] = Some(i);
    }

    fn deliver2(&mut self, si: usize, inst: usize, b: &[u8]) {
        if inst >= self.resps.len() {
            return;
        }
        let rs = self.plan.sessions[self.resps[inst].session].clone();
        let c = self.sim.combo(rs.combo);
        if b.len() != CT + c.q + TAG + CT + PK + TAG + c.r + TAG {
            return;
        }
        let pp = self.party(rs.resp) as *const Party;
        let p: &Party = unsafe { &*pp };
        let r = &mut self.resps[inst];
        if r.dead {
            return;
        }
        if let Some(a) = &mut r.adv {
            if r.got.len() == 1 {
                r.got.push(b.to_vec());
                if let Some((_, _, _, m3, d)) = a.step2(&r.seed[128..160], b, c.q, &r.payloads.1) {
                    r.sent.push(m3.clone());
                    r.adv_done = Some(d);
                    self.send(si, inst, 3, m3);
                } else {
                    // bluff: a random last message
                    let m3 = seed_bytes(0x626c, rs.seed, CT + c.s + TAG);
                    self.send(si, inst, 3, m3);
                }
            }
            return;
        }
        match std::mem::replace(&mut r.state, RespState::Over) {
            RespState::W2(st) => {
                r.got.push(b.to_vec());
                let model = r.shadow.as_mut().unwrap().step2(&r.seed[128..160], b, c.q, &r.payloads.1);
                let res = guarded(|| (c.take2_out3)(&r.seed[128..160], st, &p.pk, &p.sk, b, &r.payloads.1));
                match res {
                    Err(e) => {
                        r.failed = Some("panic".into());
                        self.o.fail("panic.take2_out3", format!("responder instance {}: {}", inst, first_line(&e)));
                    }
                    Ok(Err(e)) => {
                        r.failed = Some(e.clone());
                        self.log(format!("responder instance {} refuses message 2: {}", inst, e));
                        self.o.count("refused.message2", 1);
                        if model.is_some() {
                            self.o.fail("refine.refused2", format!("responder instance {} refused a message 2 the model accepts: {}", inst, e));
                        }
                    }
                    Ok(Ok((fin, pk, q, rr, m3))) => {
                        let peer = pk.compress().clone_line().to_vec();
                        match model {
                            None => self.o.fail("accept.message2", format!("responder instance {} accepted a message 2 the model refuses", inst)),
                            Some((mp, mq, mr, mm3, d)) => {
                                if mp != peer || mq != q || mr != rr || mm3 != m3 || d.hash != fin.hash {
                                    self.o.fail("refine.message3", format!("responder instance {}: key {} payloads {} {} message {} hash {}", inst, mp == peer, mq == q, mr == rr, mm3 == m3, d.hash == fin.hash));
                                }
                                r.adv_done = Some(d);
                            }
                        }
                        r.peer = Some(peer.clone());
                        r.q = q;
                        r.r = rr;
                        r.done_hash = fin.hash.clone();
                        r.done = Some(fin);
                        r.sent.push(m3.clone());
                        self.o.count("responder_completed", 1);
                        self.log(format!("responder instance {} completes with {}", inst, short(&peer)));
                        self.send(si, inst, 3, m3);
                    }
                }
            }
            st => {
                r.state = st;
                self.o.count("ignored_out_of_turn", 1);
            }
        }
    }

    fn deliver3(&mut self, si: usize, b: &[u8]) {
        let s = self.plan.sessions[si].clone();
        let c = self.sim.combo(s.combo);
        if b.len() != CT + c.s + TAG {
            return;
        }
        let pp = self.party(s.init) as *const Party;
        let p: &Party = unsafe { &*pp };
        let Some(mut i) = self.inits[si].take() else { return };
        if i.dead {
            self.inits[si] = Some(i);
            return;
        }
        if let Some(a) = &mut i.adv {
            if !i.adv_over && i.got.len() == 1 {
                i.got.push(b.to_vec());
                i.adv_over = true;
                if let Some((_, d)) = a.step3(b) {
                    i.adv_done = Some(d);
                    self.o.count("adversary_initiator_completed", 1);
                }
            }
            self.inits[si] = Some(i);
            return;
        }
        match std::mem::replace(&mut i.state, InitState::Over) {
            InitState::W3(st) => {
                i.got.push(b.to_vec());
                let model = i.shadow.as_mut().unwrap().step3(b);
                match guarded(|| (c.take_3)(st, &p.pk, &p.sk, b)) {
                    Err(e) => {
                        self.o.fail("panic.take_3", format!("session {}: {}", si, first_line(&e)));
                        i.failed = Some("panic".into());
                    }
                    Ok(Err(e)) => {
                        self.log(format!("initiator of session {} refuses message 3: {}", si, e));
                        self.o.count("refused.message3", 1);
                        if model.is_some() {
                            self.o.fail("refine.refused3", format!("session {}: the initiator refused a message 3 the model accepts: {}", si, e));
                        }
                        i.failed = Some(e);
                    }
                    Ok(Ok((fin, ps))) => {
                        match model {
                            None => self.o.fail("accept.message3", format!("session {}: the initiator accepted a message 3 the model refuses", si)),
                            Some((mps, d)) => {
                                if mps != ps || d.hash != fin.hash {
                                    self.o.fail("refine.final", format!("session {}: payload {} hash {}", si, mps == ps, d.hash == fin.hash));
                                }
                                i.adv_done = Some(d);
                            }
                        }
                        self.o.count("initiator_completed", 1);
                        self.log(format!("initiator of session {} completes", si));
                        i.done = Some((fin, ps));
                    }
                }
            }
            st => {
                i.state = st;
                self.o.count("ignored_out_of_turn", 1);
            }
        }
        self.inits[si] = Some(i);
    }

    fn inject(&mut self, k: usize) {
        let f = self.plan.inject[k].clone();
        if self.wire.is_empty() || self.plan.sessions.is_empty() {
            return;
        }
        let m = (f.m % self.wire.len() as u64) as usize;
        let (_, stage, bytes) = self.wire[m].clone();
        let si = (f.s % self.plan.sessions.len() as u64) as usize;
        let c = self.sim.combo(self.plan.sessions[si].combo);
        let b = if f.mutate != 0 { mutate(f.mutate, f.mseed, stage, c, &bytes, &self.wire) } else { bytes };
        self.o.count("fault.inject", 1);
        self.log(format!("adversary delivers #{} (message {}) to session {}{}", m, stage, si, if f.mutate != 0 { " altered" } else { "" }));
        let inst = self.resps.iter().rposition(|r| r.session == si).unwrap_or(usize::MAX);
        self.deliver(stage, si, inst, &b);
    }

    fn deliver(&mut self, stage: usize, session: usize, inst: usize, b: &[u8]) {
        match stage {
            0 => self.deliver0(session, b, session),
            1 => self.deliver1(session, inst, b),
            2 => self.deliver2(session, inst, b),
            _ => self.deliver3(session, b),
        }
    }

    /// checks over the finished history
    fn judge(&mut self) {
        let mut fails: Vec<(String, String)> = vec![];
        let party_bytes: Vec<Vec<u8>> = (0..self.plan.parties.len() as u64).map(|i| self.party(i).bytes.clone()).collect();
        let mut hashes: HashMap<Vec<u8>, Vec<(bool, usize)>> = HashMap::new();
        let mut pairs = vec![];
        for (si, i) in self.inits.iter().enumerate() {
            let Some(i) = i else { continue };
            if i.adv.is_some() {
                continue;
            }
            // a full exchange of unaltered messages must have completed
            let s = &self.plan.sessions[si];
            if let Some((_fin, ps)) = &i.done {
                let peer = i.peer.clone().unwrap_or_default();
                hashes.entry(_fin.hash.clone()).or_default().push((true, si));
                let matching = self.resps.iter().position(|r| r.got.len() == 2 && r.sent.len() == 2 && r.got[0] == i.sent[0] && r.sent[0] == i.got[0] && r.got[1] == i.sent[1] && r.sent[1] == i.got[1]);
                match matching {
                    Some(ri) => {
                        let r = &self.resps[ri];
                        let rbytes = match &r.adv {
                            Some(a) => a.s.bytes.clone(),
                            None => party_bytes[r.party].clone(),
                        };
                        if rbytes != peer {
                            fails.push(("match.initiator_peer".into(), format!("session {}: the initiator reports a peer which is not the one it spoke with", si)));
                        }
                        if r.adv.is_none() {
                            if let Some(rd) = &r.done {
                                if rd.hash != _fin.hash {
                                    fails.push(("agree.hash".into(), format!("session {}: hashes differ", si)));
                                }
                                if r.peer.as_ref() != Some(&party_bytes[i.party]) {
                                    fails.push(("agree.peer".into(), format!("session {}: the responder learned another key", si)));
                                }
                                if i.p != r.payloads.0 || r.q != i.payloads.0 || r.r != i.payloads.1 || *ps != r.payloads.1 {
                                    fails.push(("agree.payload".into(), format!("session {}: payloads differ", si)));
                                }
                                pairs.push((si, ri));
                            } else {
                                fails.push(("agree.completion".into(), format!("session {}: the initiator completed, the responder did not", si)));
                            }
                        }
                    }
                    None => fails.push(("match.initiator".into(), format!("session {}: the initiator completed a conversation nobody held with it (peer {})", si, short(&peer)))),
                }
            }
            // completeness: same messages on both sides so far means no refusal
            for (ri, r) in self.resps.iter().enumerate() {
                if r.adv.is_some() || r.got.first() != i.sent.first() {
                    continue;
                }
                let dialled = s.adv_resp == 0 && self.pidx(s.dial) == r.party && self.plan.sessions[r.session].alias == 0;
                if !dialled {
                    continue;
                }
                if i.got.first().is_some() && i.got.first() == r.sent.first() {
                    if i.failed.is_some() && i.got.len() == 1 {
                        fails.push(("agree.refused1".into(), format!("session {}: the initiator refused the unaltered message 1 of the dialled responder {}: {:?}", si, ri, i.failed)));
                    }
                    if r.got.len() == 2 && i.sent.len() == 2 && r.got[1] == i.sent[1] {
                        if let Some(e) = &r.failed {
                            fails.push(("agree.refused2".into(), format!("responder instance {}: refused the unaltered message 2: {}", ri, e)));
                        }
                        if i.got.len() == 2 && r.sent.len() == 2 && i.got[1] == r.sent[1] && i.done.is_none() {
                            fails.push(("agree.refused3".into(), format!("session {}: the initiator refused the unaltered message 3: {:?}", si, i.failed)));
                        }
                    }
                }
            }
        }
        for (ri, r) in self.resps.iter().enumerate() {
            if let (Some(d), true) = (&r.done, r.adv.is_none()) {
                hashes.entry(d.hash.clone()).or_default().push((false, ri));
                let peer = r.peer.clone().unwrap_or_default();
                let ok = self.inits.iter().flatten().any(|i| {
                    let ib = match &i.adv {
                        Some(a) => a.knobs.present.clone().unwrap_or_else(|| a.s.bytes.clone()),
                        None => party_bytes[i.party].clone(),
                    };
                    // presenting somebody else's key does not make one its holder
                    let holder = i.adv.as_ref().map(|a| a.knobs.present.is_none()).unwrap_or(true);
                    holder && ib == peer && i.sent.len() == 2 && i.sent[0] == r.got[0] && i.sent[1] == r.got[1] && i.got.first() == r.sent.first()
                });
                if !ok {
                    fails.push(("match.responder".into(), format!("responder instance {} completed a conversation the holder of {} did not hold with it", ri, short(&peer))));
                }
                if let Some(i) = self.inits.iter().flatten().find(|i| i.adv.is_some() && i.sent.first() == r.got.first()) {
                    let k = &i.adv.as_ref().unwrap().knobs;
                    if k.pi.is_some() || k.skip_pi {
                        fails.push(("identity.responder".into(), format!("responder instance {} completed with an initiator that dialled another identity", ri)));
                    }
                }
            }
        }
        for (h, v) in &hashes {
            let i: Vec<_> = v.iter().filter(|x| x.0).map(|x| x.1).collect();
            let r: Vec<_> = v.iter().filter(|x| !x.0).map(|x| x.1).collect();
            let bad = i.len() > 1 || r.len() > 1 || (i.len() == 1 && r.len() == 1 && !pairs.contains(&(i[0], r[0])));
            if bad {
                fails.push(("match.hash".into(), format!("session hash {} is shared by initiators {:?} and responders {:?}", short(h), i, r)));
            }
        }
        fails.sort();
        for f in fails {
            self.o.violations.push(f);
        }
        // interop with the outside conforming peers
        for (si, i) in self.inits.iter().enumerate() {
            let Some(i) = i else { continue };
            if let Some(a) = &i.adv {
                if a.knobs.pi.is_none() && !a.knobs.skip_pi && a.knobs.present.is_none() && a.knobs.e_point.is_none() {
                    if let (Some(d), Some(r)) = (&i.adv_done, self.resps.iter().find(|r| r.adv.is_none() && r.got.get(1) == i.sent.get(1) && r.done.is_some())) {
                        if d.hash != r.done.as_ref().unwrap().hash {
                            self.o.violations.push(("agree.interop".into(), format!("session {}: hash differs from a conforming initiator's", si)));
                        }
                        self.o.count("interop_initiator", 1);
                    }
                }
            }
        }
        // channels: matched pairs talk, also after garbage
        let hostile = self.plan.hostile_records;
        for (si, ri) in pairs {
            let Some(mut i) = self.inits[si].take() else { continue };
            let (fin, _) = i.done.as_mut().unwrap();
            let d = i.adv_done.as_ref().map(|d| (d.i2r.clone(), d.r2i.clone()));
            let r = self.resps[ri].done.as_mut().unwrap();
            let mut g = Rng::new(mix(self.plan.sessions[si].seed, 0x6368));
            let (mut ni, mut nr) = (0, 0);
            let mut bad: Vec<(String, String)> = vec![];
            for step in 0..4 + hostile {
                let from_i = g.chance(500);
                let (a, b, key, n) = if from_i { (&mut fin.cipher, &mut r.cipher, d.as_ref().map(|d| &d.0), &mut ni) } else { (&mut r.cipher, &mut fin.cipher, d.as_ref().map(|d| &d.1), &mut nr) };
                if step >= 4 || (hostile > 0 && g.chance(500)) {
                    let len = if g.chance(600) { g.idx(40) } else { g.idx(300) };
                    let junk = g.bytes(len);
                    self.o.count("fault.hostile_record", 1);
                    let mut v = junk.clone();
                    match guarded(|| b.decrypt_ext(b"", &mut v)) {
                        Err(e) => {
                            bad.push(("panic.decrypt_ext".into(), format!("a record of {} bytes: {}", len, first_line(&e))));
                            break;
                        }
                        Ok(Ok(())) => bad.push(("accept.junk_record".into(), format!("a random record of {} bytes was accepted", len))),
                        Ok(Err(_)) => {}
                    }
                }
                let len = g.idx(200);
                let text = g.bytes(len);
                let mut v = text.clone();
                if guarded(|| a.encrypt_ext(b"ad", &mut v)).is_err() {
                    bad.push(("panic.encrypt_ext".into(), String::new()));
                    break;
                }
                if let Some(k) = key {
                    if A::ChaCha.seal(k, *n, b"ad", &text) != v {
                        bad.push(("refine.record".into(), format!("record {} of session {} differs from the model", n, si)));
                    }
                }
                *n += 1;
                match guarded(|| b.decrypt_ext(b"ad", &mut v)) {
                    Ok(Ok(())) if v == text => {}
                    _ => {
                        bad.push((if hostile > 0 { "unaffected.channel" } else { "agree.channel" }.into(), format!("session {}: an in-order record did not open", si)));
                        break;
                    }
                }
            }
            self.o.violations.extend(bad);
            self.o.count("channels_exercised", 1);
            self.inits[si] = Some(i);
        }
    }
}

fn first_line(s: &str) -> String {
    s.lines().collect::<Vec<_>>().join(" | ")
}
fn bad_point(seed: u64) -> Vec<u8> {
    let mut r = Rng::new(mix(seed, 0x626164));
    loop {
        let b = r.bytes(32);
        if !refxx::valid(&b) {
            return b;
        }
    }
}
fn low_point(seed: u64) -> Vec<u8> {
    use curve25519_dalek::constants::EIGHT_TORSION;
    EIGHT_TORSION[(seed % 8) as usize].compress().as_bytes().to_vec()
}

impl Sim for XxSim {
    type Plan = Plan;
    type Worker = ();
    fn worker(&self) -> Result<(), String> {
        Ok(())
    }
    fn generate(&self, g: &mut Rng, idx: u64, _tier: Tier) -> Plan {
        let big = idx % 8 == 0;
        let np = 2 + g.idx(if big { 5 } else { 3 });
        let ns = 1 + g.idx(if big { 8 } else { 4 });
        let parties: Vec<u64> = (0..np).map(|i| (g.next() >> 20).wrapping_mul(16) + if g.chance(100) { 0 } else { 1 + i as u64 }).collect();
        let span = *g.pick(&[0u64, 1_000, 20_000]);
        let one_combo = g.chance(600);
        let combo0 = g.below(8);
        let mut sessions: Vec<Session> = (0..ns)
            .map(|_| {
                let resp = g.below(np as u64);
                Session { init: g.below(np as u64), resp, dial: resp, combo: if one_combo { combo0 } else { g.below(8) }, start_us: g.below(span + 1), seed: g.next() >> 12, adv_init: 0, adv_resp: 0, alias: 0 }
            })
            .collect();
        let mut net = vec![];
        let mut inject = vec![];
        let mut crash = vec![];
        let mut hostile_records = 0;
        let msgs = ns as u64 * 4;
        let loss = |g: &mut Rng, net: &mut Vec<Net>, p: u64| {
            for k in 0..msgs {
                let drop = g.chance(p / 3);
                let delay_us = if g.chance(p) { g.below(30_000) } else { 0 };
                let dup_us = if g.chance(p) { 1 + g.below(10_000) } else { 0 };
                if drop || delay_us > 0 || dup_us > 0 {
                    net.push(Net { k, drop, delay_us, dup_us, ..Default::default() });
                }
            }
        };
        let horizon = span + 60_000;
        match self.prop {
            Prop::C01 => {
                if g.chance(500) {
                    loss(g, &mut net, 150);
                }
                if g.chance(150) {
                    crash.push(Crash { at_us: g.below(horizon), party: g.below(np as u64) });
                }
                for s in &mut sessions {
                    if g.chance(80) {
                        s.adv_init = 1;
                    } else if g.chance(80) {
                        s.adv_resp = 1;
                    }
                }
            }
            Prop::C02 => {
                if g.chance(300) {
                    loss(g, &mut net, 100);
                }
                let n = 1 + g.idx(3);
                for _ in 0..n {
                    let k = g.below(msgs);
                    net.retain(|x: &Net| x.k != k);
                    net.push(Net { k, mutate: 1 + g.below(MUTATIONS - 1), mseed: g.next() >> 12, ..Default::default() });
                }
                if g.chance(600) {
                    for _ in 0..1 + g.idx(4) {
                        inject.push(Inject { at_us: g.below(horizon), m: g.below(msgs), s: g.below(ns as u64), mutate: if g.chance(300) { 1 + g.below(MUTATIONS - 1) } else { 0 }, mseed: g.next() >> 12 });
                    }
                }
                for s in &mut sessions {
                    if g.chance(150) {
                        s.adv_init = *g.pick(&[1, 2, 4, 4, 6]);
                    } else if g.chance(150) {
                        s.adv_resp = *g.pick(&[1, 2, 3, 3, 6]);
                    }
                }
                if g.chance(100) {
                    crash.push(Crash { at_us: g.below(horizon), party: g.below(np as u64) });
                }
            }
            Prop::C03 => {
                if g.chance(200) {
                    loss(g, &mut net, 100);
                }
                for s in &mut sessions {
                    match g.below(10) {
                        0..=2 => s.dial = g.below(np as u64),
                        3..=5 => {
                            s.adv_resp = *g.pick(&[2, 2, 2, 3, 6, 1, 7]);
                            s.dial = g.below(np as u64);
                        }
                        6..=7 => s.adv_init = *g.pick(&[2, 2, 7, 8, 8, 4, 1]),
                        8 => s.alias = 1 + g.below(512),
                        _ => {}
                    }
                }
                if g.chance(300) {
                    // relay between sessions
                    for _ in 0..1 + g.idx(4) {
                        inject.push(Inject { at_us: g.below(horizon), m: g.below(msgs), s: g.below(ns as u64), mutate: 0, mseed: 0 });
                    }
                }
            }
            Prop::C04 => {
                for _ in 0..1 + g.idx(3) {
                    let k = g.below(msgs);
                    net.retain(|x: &Net| x.k != k);
                    net.push(Net { k, mutate: *g.pick(&[3, 4, 6, 6, 7, 9, 10, 11, 1, 5]), mseed: g.next() >> 12, ..Default::default() });
                }
                for s in &mut sessions {
                    if g.chance(200) {
                        s.adv_init = *g.pick(&[3, 3, 5, 6, 4]);
                    } else if g.chance(250) {
                        s.adv_resp = *g.pick(&[4, 4, 5, 5, 6, 3]);
                    }
                }
                if g.chance(500) {
                    for _ in 0..1 + g.idx(4) {
                        inject.push(Inject { at_us: g.below(horizon), m: g.below(msgs), s: g.below(ns as u64), mutate: *g.pick(&[3, 4, 6, 7, 9, 11]), mseed: g.next() >> 12 });
                    }
                }
                hostile_records = 1 + g.below(20);
            }
        }
        Plan { parties, sessions, lat_seed: g.next() >> 12, lat_max_us: *g.pick(&[1, 1_000, 10_000]), net, inject, crash, hostile_records }
    }

    fn run(&self, _w: &mut (), plan: &Plan) -> Outcome {
        let mut r = Run { sim: self, plan, parties: HashMap::new(), q: BinaryHeap::new(), seq: 0, now: 0, inits: (0..plan.sessions.len()).map(|_| None).collect(), resps: vec![], wire: vec![], o: Outcome::default(), h: Hash64::default(), behaviour: Hash64::default(), adv_pks: vec![] };
        if plan.parties.is_empty() {
            return r.o;
        }
        for p in 0..plan.parties.len() as u64 {
            r.party(p);
        }
        for (i, s) in plan.sessions.iter().enumerate() {
            r.at(s.start_us, What::Start(i));
        }
        for (i, s) in plan.inject.iter().enumerate() {
            r.at(s.at_us, What::Inject(i));
        }
        for (i, s) in plan.crash.iter().enumerate() {
            r.at(s.at_us, What::Crash(i));
        }
        let mut steps = 0;
        while let Some(Ev(t, _, w)) = r.q.pop() {
            r.now = t;
            steps += 1;
            if steps > 2000 {
                r.o.harness_error = Some("too many events".into());
                break;
            }
            match w {
                What::Start(i) => r.start(i),
                What::Inject(i) => r.inject(i),
                What::Crash(i) => {
                    let p = r.pidx(plan.crash[i].party);
                    for x in r.inits.iter_mut().flatten().filter(|x| x.party == p) {
                        if x.done.is_none() {
                            x.dead = true;
                        }
                    }
                    for x in r.resps.iter_mut().filter(|x| x.party == p) {
                        if x.done.is_none() {
                            x.dead = true;
                        }
                    }
                    r.o.count("fault.crash", 1);
                    r.log(format!("party {} restarts", p));
                }
                What::Deliver { stage, session, inst, msg, bytes } => {
                    r.log(format!("deliver #{} (message {}) to session {} {}", msg, stage, session, short(&bytes)));
                    r.behaviour.num((stage * 16 + session) as u64);
                    r.deliver(stage, session, inst, &bytes);
                }
            }
        }
        r.judge();
        let done = r.o.counters.get("initiator_completed").copied().unwrap_or(0);
        let refused: u64 = r.o.counters.iter().filter(|(k, _)| k.starts_with("refused")).map(|x| x.1).sum();
        r.o.nontrivial = match self.prop {
            Prop::C01 => done > 0,
            _ => refused > 0 || (done > 0 && r.o.counters.contains_key("fault.inject")),
        };
        for k in r.o.counters.iter() {
            r.behaviour.add(k.0.as_bytes());
            r.behaviour.num(*k.1);
        }
        r.o.state_hash = r.behaviour.get();
        let v: Vec<(String, String)> = r.o.violations.clone();
        for (c, d) in v {
            r.log(format!("VIOLATES [{}] {}", c, d));
        }
        r.o.sim_ns = r.now * 1000;
        r.o.log_hash = r.h.get();
        let prop = self.prop;
        r.o.violations.retain(|(c, _)| owns(prop, c));
        r.o.known.retain(|_| prop == Prop::C04);
        r.o
    }
    fn rule(&self) -> String {
        "Seeded plans: 2-6 parties, 1-8 concurrent sessions, 8 combinations of payload sizes, a latency per message, network faults per message (drop, delay, duplicate, 11 kinds of alteration), adversary deliveries of recorded messages, impostor roles, party restarts. Non-trivial: a handshake completed (C01), or a side refused a message or completed despite an adversary delivery (C02-C04). Distinct: by the sequence of (stage, session) deliveries and the counts of outcomes.".into()
    }
    fn expected_counters(&self) -> Vec<&'static str> {
        match self.prop {
            Prop::C01 => vec!["initiator_completed", "responder_completed", "fault.drop", "fault.delay", "fault.duplicate", "fault.crash", "interop_initiator", "channels_exercised"],
            Prop::C02 => vec!["refused.message1", "refused.message2", "refused.message3", "fault.inject", "fault.mutate_1", "fault.mutate_5", "fault.mutate_8", "fault.mutate_10", "adversary.initiator_4", "adversary.responder_3"],
            Prop::C03 => vec!["refused.message1", "refused.message2", "adversary.responder_2", "adversary.initiator_2", "fault.inject"],
            Prop::C04 => vec!["refused.message1", "refused.message2", "refused.message3", "adversary.initiator_3", "adversary.initiator_5", "adversary.responder_4", "adversary.responder_5", "fault.hostile_record", "fault.mutate_9", "fault.mutate_6"],
        }
    }
    fn real_components(&self) -> Vec<&'static str> {
        vec!["vru-session handshake (initiator and responder)", "vru-noise symmetric state and ciphers", "vru-kyber"]
    }
    fn stub_components(&self) -> Vec<&'static str> {
        vec!["network (discrete-event queue)", "session routing header", "adversary and model sides (own implementation of the pattern)"]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["Sha3, ChaCha20-Poly1305 and curve25519-dalek are trusted".into()]
    }
}

fn owns(p: Prop, class: &str) -> bool {
    let c = class.split('.').next().unwrap_or("");
    match p {
        Prop::C01 => matches!(c, "agree" | "refine" | "panic"),
        Prop::C02 => matches!(c, "match" | "accept"),
        Prop::C03 => matches!(c, "identity" | "match"),
        Prop::C04 => matches!(c, "panic" | "unaffected") || class == "accept.junk_record",
    }
}
