//! Reference model of the four-message handshake, one role at a time, and
//! the same roles with knobs that make them adversaries, independent of
//! vru-session and vru-kyber.
use crate::refkyber as rk;
use crate::refnoise::{Sym, A, H};
use curve25519_dalek::{edwards::CompressedEdwardsY, scalar::Scalar};
use rac::Array;
use vru_session::handshake::{PublicKey, SecretKey};

pub const NAME: &[u8] = b"Noise_XX_25519+Kyber_ChaChaPoly_SHA256";
pub const PK: usize = 1120;
pub const CT: usize = 1152;
pub const TAG: usize = 16;

pub struct KeyPair {
    pub pk: PublicKey,
    pub sk: SecretKey,
    pub scalar: Scalar,
    lattice: (Vec<u8>, Vec<u8>),
    pub bytes: Vec<u8>,
}
impl KeyPair {
    pub fn new(seed: &[u8]) -> KeyPair {
        let (pk, sk) = PublicKey::gen(Array::from_slice(seed));
        let mut b = [0; 32];
        b.copy_from_slice(&seed[..32]);
        b[0] &= 248;
        b[31] &= 127;
        b[31] |= 64;
        let scalar = Scalar::from_bits(b);
        // the elliptic half, independently
        let point = (&curve25519_dalek::constants::ED25519_BASEPOINT_TABLE * &scalar).compress();
        let mut bytes = point.as_bytes().to_vec();
        let lattice = rk::generate(&seed[32..96], 3);
        bytes.extend_from_slice(&lattice.1);
        KeyPair { pk, sk, scalar, lattice, bytes }
    }
    pub fn identity(&self) -> Vec<u8> {
        identity(&self.bytes)
    }
}
pub fn identity(pk: &[u8]) -> Vec<u8> {
    H::Sha3_256.hash(&[pk])
}
pub fn valid(pk: &[u8]) -> bool {
    CompressedEdwardsY::from_slice(&pk[..32]).decompress().is_some()
}
fn dh(kp: &KeyPair, peer: &[u8]) -> Option<Vec<u8>> {
    let p = CompressedEdwardsY::from_slice(&peer[..32]).decompress()?;
    Some((p * kp.scalar).compress().as_bytes().to_vec())
}
fn kem_to(peer: &[u8], seed: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let pk = &peer[32..];
    rk::encapsulate(seed, pk, &rk::hash(pk), 3)
}
fn kem_from(kp: &KeyPair, ct: &[u8]) -> Vec<u8> {
    let (sk, pk) = &kp.lattice;
    rk::decapsulate(sk, pk, &rk::hash(pk), ct, 3).0
}

/// What a (possibly dishonest) side does instead of the protocol
#[derive(Clone, Default)]
pub struct Knobs {
    /// identity it mixes in place of the proper one
    pub pi: Option<Vec<u8>>,
    /// mixes no identity at all
    pub skip_pi: bool,
    /// static key bytes it presents in place of its own
    pub present: Option<Vec<u8>>,
    /// bytes in place of the elliptic part of its ephemeral key
    pub e_point: Option<Vec<u8>>,
}

pub struct Done {
    pub hash: Vec<u8>,
    pub i2r: Vec<u8>,
    pub r2i: Vec<u8>,
}

pub struct RefInit {
    pub s: KeyPair,
    pub e: KeyPair,
    pub e_bytes: Vec<u8>,
    pub dial: Vec<u8>,
    pub sym: Sym,
    pub honest: bool,
    pub knobs: Knobs,
}
impl RefInit {
    pub fn new(s_seed: &[u8], e_seed: &[u8], dial: &[u8], knobs: Knobs) -> (RefInit, Vec<u8>) {
        let s = KeyPair::new(s_seed);
        let e = KeyPair::new(e_seed);
        let mut e_bytes = e.bytes.clone();
        if let Some(p) = &knobs.e_point {
            e_bytes[..32].copy_from_slice(p);
        }
        let mut sym = Sym::new(H::Sha3_256, A::ChaCha, NAME);
        if !knobs.skip_pi {
            sym.mix_hash(knobs.pi.as_deref().unwrap_or(dial));
        }
        sym.mix_hash(&e_bytes);
        let honest = !knobs.skip_pi && knobs.pi.is_none() && knobs.present.is_none() && knobs.e_point.is_none();
        let m0 = e_bytes.clone();
        (RefInit { s, e, e_bytes, dial: dial.to_vec(), sym, honest, knobs }, m0)
    }
    /// Ok((peer static key, payload p, message 2))
    pub fn step1(&mut self, seed: &[u8], m: &[u8], p: usize, q: &[u8], r: &[u8]) -> Option<(Vec<u8>, Vec<u8>, Vec<u8>)> {
        let (ct, m) = m.split_at(CT);
        let (cp, m) = m.split_at(p + TAG);
        let (pe, cs) = m.split_at(PK);
        self.sym.mix_key(&kem_from(&self.e, ct));
        let pp = self.sym.open(cp)?;
        self.sym.mix_hash(pe);
        self.sym.mix_key(&dh(&self.e, pe)?);
        let ps = self.sym.open(cs)?;
        let es = dh(&self.e, &ps)?;
        if self.honest && identity(&ps) != self.dial {
            return None;
        }
        self.sym.mix_key(&es);
        let (ct_e, ss) = kem_to(pe, &seed[..32]);
        self.sym.mix_key(&ss);
        let cq = self.sym.seal(q);
        let (ct_s, ss) = kem_to(&ps, &seed[32..64]);
        self.sym.mix_key(&ss);
        let cs = self.sym.seal(self.knobs.present.as_deref().unwrap_or(&self.s.bytes));
        self.sym.mix_key(&dh(&self.s, pe)?);
        let cr = self.sym.seal(r);
        Some((ps, pp, [ct_e, cq, ct_s, cs, cr].concat()))
    }
    pub fn step3(&mut self, m: &[u8]) -> Option<(Vec<u8>, Done)> {
        let (ct, cs) = m.split_at(CT);
        self.sym.mix_key(&kem_from(&self.s, ct));
        let s = self.sym.open(cs)?;
        let (i2r, r2i) = self.sym.split();
        Some((s, Done { hash: self.sym.h.clone(), i2r, r2i }))
    }
}

pub struct RefResp {
    pub s: KeyPair,
    pub e: KeyPair,
    pub sym: Sym,
}
impl RefResp {
    /// None: message 0 does not hold a point
    pub fn new(s_seed: &[u8], e_seed: &[u8], pq_seed: &[u8], m0: &[u8], p: &[u8], knobs: Knobs) -> Option<(RefResp, Vec<u8>)> {
        let s = KeyPair::new(s_seed);
        let e = KeyPair::new(e_seed);
        let mut e_bytes = e.bytes.clone();
        if let Some(p) = &knobs.e_point {
            e_bytes[..32].copy_from_slice(p);
        }
        let mut sym = Sym::new(H::Sha3_256, A::ChaCha, NAME);
        if !knobs.skip_pi {
            sym.mix_hash(knobs.pi.as_deref().unwrap_or(&s.identity()));
        }
        sym.mix_hash(m0);
        if !valid(m0) {
            return None;
        }
        let (ct, ss) = kem_to(m0, pq_seed);
        sym.mix_key(&ss);
        let cp = sym.seal(p);
        sym.mix_hash(&e_bytes);
        sym.mix_key(&dh(&e, m0)?);
        let cs = sym.seal(knobs.present.as_deref().unwrap_or(&s.bytes));
        sym.mix_key(&dh(&s, m0)?);
        Some((RefResp { s, e, sym }, [ct, cp, e_bytes, cs].concat()))
    }
    /// Some((peer static key, q, r, message 3, done))
    pub fn step2(&mut self, seed: &[u8], m: &[u8], q: usize, s: &[u8]) -> Option<(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Done)> {
        let (ct_e, m) = m.split_at(CT);
        let (cq, m) = m.split_at(q + TAG);
        let (ct_s, m) = m.split_at(CT);
        let (cs, cr) = m.split_at(PK + TAG);
        self.sym.mix_key(&kem_from(&self.e, ct_e));
        let q = self.sym.open(cq)?;
        self.sym.mix_key(&kem_from(&self.s, ct_s));
        let ps = self.sym.open(cs)?;
        self.sym.mix_key(&dh(&self.e, &ps)?);
        let r = self.sym.open(cr)?;
        let (ct, ss) = kem_to(&ps, seed);
        self.sym.mix_key(&ss);
        let c3 = self.sym.seal(s);
        let (i2r, r2i) = self.sym.split();
        Some((ps, q, r, [ct, c3].concat(), Done { hash: self.sym.h.clone(), i2r, r2i }))
    }
}
