//! What the parties of wiresim make, send and keep: real keys, ciphertexts,
//! signatures and wire structures behind byte-level functions.
use crate::refkyber as rk;
use curve25519_dalek::{edwards::EdwardsPoint, montgomery::MontgomeryPoint, scalar::Scalar};
use generic_array::{typenum::*, GenericArray};
use rac::Line as _;
use rac_repo::{Curve as _, LineValid as _, Signature as _};
use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr};
use vcore::{mix, Rng};
use vru_kyber::{Kem, Kyber};
use vru_session::handshake::{Identity, PublicKey};
use vru_session::Command;

type Schnorr = rac_repo::Schnorr<EdwardsPoint, sha3::Sha3_256>;

// ------------------------------------------------------------------- KEM
pub trait KemPair {
    fn public(&self) -> Vec<u8>;
    fn secret(&self) -> Vec<u8>;
    /// with the key object at hand
    fn encapsulate(&self, seed: &[u8]) -> (Vec<u8>, Vec<u8>);
    fn decapsulate(&self, ct: &[u8]) -> Vec<u8>;
}
fn ga<N: generic_array::ArrayLength<u8>>(b: &[u8]) -> GenericArray<u8, N> {
    GenericArray::from_slice(b).clone()
}
macro_rules! kem {
    ($m:ident, $w:ty) => {
        mod $m {
            use super::*;
            use rac::LineValid;
            type K = Kyber<$w>;
            pub type Pk = <K as Kem>::PublicKey;
            pub type Sk = <K as Kem>::SecretKey;
            pub type Ct = <K as Kem>::CipherText;
            pub struct Pair(Pk, Sk);
            impl KemPair for Pair {
                fn public(&self) -> Vec<u8> {
                    self.0.clone_line().to_vec()
                }
                fn secret(&self) -> Vec<u8> {
                    self.1.clone_line().to_vec()
                }
                fn encapsulate(&self, seed: &[u8]) -> (Vec<u8>, Vec<u8>) {
                    let h = ga(&rk::hash(&self.public()));
                    let (ct, ss) = K::encapsulate(&ga(seed), &self.0, &h);
                    (ct.clone_line().to_vec(), ss.to_vec())
                }
                fn decapsulate(&self, ct: &[u8]) -> Vec<u8> {
                    let h = ga(&rk::hash(&self.public()));
                    K::decapsulate(&self.1, &self.0, &h, &Ct::try_clone_array(&ga(ct)).unwrap()).to_vec()
                }
            }
            pub fn generate(seed: &[u8]) -> Box<dyn KemPair> {
                let (pk, sk) = K::generate_pair(&ga(seed));
                Box::new(Pair(pk, sk))
            }
            pub fn load(sk: &[u8], pk: &[u8]) -> Box<dyn KemPair> {
                Box::new(Pair(Pk::try_clone_array(&ga(pk)).unwrap(), Sk::try_clone_array(&ga(sk)).unwrap()))
            }
            pub fn encapsulate(seed: &[u8], pk: &[u8]) -> (Vec<u8>, Vec<u8>) {
                let k = Pk::try_clone_array(&ga(pk)).unwrap();
                let (ct, ss) = K::encapsulate(&ga(seed), &k, &ga(&rk::hash(pk)));
                (ct.clone_line().to_vec(), ss.to_vec())
            }
            pub fn again(what: usize, b: &[u8]) -> Vec<u8> {
                match what {
                    0 => Pk::try_clone_array(&ga(b)).unwrap().clone_line().to_vec(),
                    1 => Sk::try_clone_array(&ga(b)).unwrap().clone_line().to_vec(),
                    _ => Ct::try_clone_array(&ga(b)).unwrap().clone_line().to_vec(),
                }
            }
        }
    };
}
kem!(k2, U2);
kem!(k3, U3);
kem!(k4, U4);
pub fn generate(w: usize, seed: &[u8]) -> Box<dyn KemPair> {
    match w {
        2 => k2::generate(seed),
        3 => k3::generate(seed),
        _ => k4::generate(seed),
    }
}
pub fn load(w: usize, sk: &[u8], pk: &[u8]) -> Box<dyn KemPair> {
    match w {
        2 => k2::load(sk, pk),
        3 => k3::load(sk, pk),
        _ => k4::load(sk, pk),
    }
}
pub fn encapsulate(w: usize, seed: &[u8], pk: &[u8]) -> (Vec<u8>, Vec<u8>) {
    match w {
        2 => k2::encapsulate(seed, pk),
        3 => k3::encapsulate(seed, pk),
        _ => k4::encapsulate(seed, pk),
    }
}

// ------------------------------------------------------------- signatures
pub struct Signer {
    sk: Scalar,
    pk: EdwardsPoint,
}
impl Signer {
    pub fn new(seed: &[u8]) -> Self {
        let sk = <Scalar as rac_repo::LineValid>::try_clone_array(&ga(seed)).unwrap();
        Signer { sk, pk: <EdwardsPoint as rac_repo::Curve>::base().exp_ec(&sk) }
    }
    pub fn reload(&self) -> Self {
        let b = rac_repo::LineValid::clone_line(&self.sk);
        Signer::new(&b)
    }
    pub fn public(&self) -> Vec<u8> {
        rac_repo::Curve::compress(&self.pk).to_vec()
    }
    /// the signature as bytes, and whether it verifies as it is
    pub fn sign(&self, m: &[u8], nonce: &[u8]) -> (Vec<u8>, bool) {
        let k = <Scalar as rac_repo::LineValid>::try_clone_array(&ga(nonce)).unwrap();
        let s = Schnorr::sign(&self.sk, &m, &k).unwrap();
        let ok = s.verify(&self.pk, &m).is_ok();
        (s.clone_line().to_vec(), ok)
    }
}
pub fn verify(key: &[u8], m: &[u8], s: &[u8]) -> bool {
    let Ok(pk) = <EdwardsPoint as rac_repo::Curve>::decompress(&ga(key)) else { return false };
    match Schnorr::try_clone_array(&ga(s)) {
        Ok(s) => s.verify(&pk, &m).is_ok(),
        Err(()) => false,
    }
}
/// adds the order of the group, which changes the number and not what it does
pub fn plus_order(s: &mut [u8]) {
    const L: [u8; 32] = [0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10];
    let mut c = 0u16;
    for (x, l) in s.iter_mut().zip(L) {
        c += *x as u16 + l as u16;
        *x = c as u8;
        c >>= 8;
    }
}

// ---------------------------------------------------------------- objects
#[derive(Debug, PartialEq)]
pub enum Got {
    Same,
    Other,
    Refused,
}
pub struct Kind {
    pub name: &'static str,
    /// fewer bytes are refused
    pub sized: bool,
    /// more bytes are refused
    pub exact: bool,
    /// other bytes of this length are another object
    pub unique: bool,
    pub encode: fn(u64) -> Vec<u8>,
    pub decode: fn(u64, &[u8]) -> Got,
}
fn seed(tag: u64, s: u64, n: usize) -> Vec<u8> {
    match s % 32 {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => Rng::new(mix(tag, s)).bytes(n),
    }
}
fn same(b: bool) -> Got {
    if b {
        Got::Same
    } else {
        Got::Other
    }
}
fn key(s: u64) -> PublicKey {
    PublicKey::gen(&ga(&seed(10, s, 96))).0
}
fn same_key(a: &PublicKey, b: &PublicKey) -> Got {
    same(a.elliptic() == b.elliptic() && a.lattice() == b.lattice() && a.lattice_hash() == b.lattice_hash() && a.identity() == b.identity())
}
fn key_alike(s: u64, k: &PublicKey) -> Got {
    let r = same_key(&key(s), k);
    if r == Got::Same {
        // and does the same
        let e = k.encapsulate(&ga(&seed(11, s, 32)));
        let f = PublicKey::try_decompress(key(s).compress()).unwrap().encapsulate(&ga(&seed(11, s, 32)));
        if e.ss != f.ss {
            return Got::Other;
        }
    }
    r
}
fn ident(s: u64) -> Identity {
    if s % 3 == 0 {
        return key(s).identity();
    }
    bincode::deserialize(&seed(12, s, 32)).unwrap()
}
fn address(s: u64) -> SocketAddr {
    let mut r = Rng::new(mix(13, s));
    let port = *r.clone().pick(&[0, 1, 80, 0xffff, 0x1234]);
    if r.chance(500) {
        (Ipv4Addr::from(*r.clone().pick(&[0, u32::MAX, 0x7f000001, r.next() as u32])), port).into()
    } else {
        let b: [u8; 16] = r.bytes(16).try_into().unwrap();
        let l: [u8; 16] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 10, 0, 0, 1];
        (Ipv6Addr::from(*r.pick(&[[0; 16], l, b, b, [0xff; 16]])), port).into()
    }
}
fn command(s: u64) -> Command<SocketAddr> {
    if s % 2 == 0 {
        Command::Connect { peer_pi: ident(s / 2), address: address(s) }
    } else {
        Command::Local { destination: ident(s / 2), command: seed(14, s, [0, 1, 31, 4000, 70_000][(s / 2 % 5) as usize]) }
    }
}
fn same_command(a: &Command<SocketAddr>, b: &Command<SocketAddr>) -> bool {
    match (a, b) {
        (Command::Connect { peer_pi: a, address: b }, Command::Connect { peer_pi: c, address: d }) => a == c && b == d,
        (Command::Local { destination: a, command: b }, Command::Local { destination: c, command: d }) => a == c && b == d,
        _ => false,
    }
}
fn udp_command(s: u64) -> vru_udp::Command {
    if s % 2 == 0 {
        vru_udp::Command::Connect { peer_pi: ident(s / 2), address: address(s) }
    } else {
        let t: String = Rng::new(mix(15, s)).bytes((s / 2 % 40) as usize).iter().map(|x| *x as char).collect();
        vru_udp::Command::Local { destination: ident(s / 2), command: vru_udp::LocalCommand::SendText(t) }
    }
}
fn same_udp(a: &vru_udp::Command, b: &vru_udp::Command) -> bool {
    use vru_udp::{Command::*, LocalCommand::SendText};
    match (a, b) {
        (Connect { peer_pi: a, address: b }, Connect { peer_pi: c, address: d }) => a == c && b == d,
        (Local { destination: a, command: SendText(b) }, Local { destination: c, command: SendText(d) }) => a == c && b == d,
        _ => false,
    }
}
fn width(s: u64) -> usize {
    2 + (s % 3) as usize
}
fn kem_bytes(what: usize, s: u64) -> Vec<u8> {
    let w = width(s);
    let k = generate(w, &seed(16, s / 3, 64));
    match what {
        0 => k.public(),
        1 => k.secret(),
        _ => encapsulate(w, &seed(17, s, 32), &k.public()).0,
    }
}
fn kem_again(what: usize, s: u64, b: &[u8]) -> Got {
    let w = width(s);
    if b.len() != [352 * w + 32, 416 * w + 32, 352 * w + 96][what] {
        return Got::Refused;
    }
    let c = match w {
        2 => k2::again(what, b),
        3 => k3::again(what, b),
        _ => k4::again(what, b),
    };
    if what != 1 && c != b {
        // every string of this length is the encoding of something
        panic!("{} bytes decode and encode as others", b.len());
    }
    same(c == kem_bytes(what, s))
}
fn scalar(s: u64) -> Scalar {
    rac_repo::LineValid::try_clone_array(&ga(&seed(18, s, 32))).unwrap()
}
fn point(s: u64) -> EdwardsPoint {
    <EdwardsPoint as rac_repo::Curve>::base().exp_ec(&scalar(s))
}
fn signature(s: u64) -> Vec<u8> {
    let m = seed(19, s, (s % 50) as usize);
    Signer::new(&seed(20, s, 32)).sign(&m, &seed(21, s, 32)).0
}
fn secp_secret(s: u64) -> secp256k1::SecretKey {
    let mut r = Rng::new(mix(22, s));
    if s % 16 == 0 {
        // one, and the order less one
        let mut b = [0; 32];
        b[31] = 1;
        if s % 32 == 0 {
            b = [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x40];
        }
        return secp256k1::SecretKey::from_slice(&b).unwrap();
    }
    loop {
        if let Ok(k) = secp256k1::SecretKey::from_slice(&r.bytes(32)) {
            return k;
        }
    }
}
fn secp_public(s: u64) -> secp256k1::PublicKey {
    secp256k1::PublicKey::from_secret_key(&secp256k1::Secp256k1::new(), &secp_secret(s))
}
fn secp_signature(s: u64) -> secp256k1::Signature {
    if s % 3 == 0 {
        // any numbers
        let mut b = seed(29, s, 64);
        b[0] &= 0x7f;
        b[32] = b[32].min(0xfe);
        if let Ok(x) = secp256k1::Signature::from_compact(&b) {
            return x;
        }
    }
    let m = secp256k1::Message::from_slice(&seed(23, s, 32).iter().map(|x| x | 1).collect::<Vec<_>>()).unwrap();
    secp256k1::Secp256k1::new().sign(&m, &secp_secret(s))
}
fn line<T: rac_repo::LineValid>(b: &[u8], eq: impl FnOnce(&T) -> bool) -> Got {
    use generic_array::typenum::Unsigned;
    if b.len() != <T::Length as Unsigned>::USIZE {
        return Got::Refused;
    }
    match T::try_clone_array(GenericArray::from_slice(b)) {
        Ok(x) => same(eq(&x)),
        Err(()) => Got::Refused,
    }
}
type Joined = rac_repo::Concat<GenericArray<u8, U7>, rac_repo::Concat<EdwardsPoint, rac_repo::Concat<[u8; 0], GenericArray<u8, U12>>>>;
fn joined(s: u64) -> Joined {
    use rac_repo::Concat;
    Concat(ga(&seed(24, s, 7)), Concat(point(s), Concat([], ga(&seed(25, s, 12)))))
}
type Plain = rac_repo::Concat<GenericArray<u8, U32>, rac_repo::Concat<GenericArray<u8, U3>, GenericArray<u8, U64>>>;
fn plain(s: u64) -> Plain {
    use rac_repo::Concat;
    Concat(ga(&seed(26, s, 32)), Concat(ga(&seed(27, s, 3)), ga(&seed(28, s, 64))))
}
fn ser<T: serde::de::DeserializeOwned>(b: &[u8], eq: impl FnOnce(&T) -> Got) -> Got {
    match bincode::deserialize::<T>(b) {
        Ok(x) => eq(&x),
        Err(_) => Got::Refused,
    }
}
const fn kind(name: &'static str, exact: bool, unique: bool, encode: fn(u64) -> Vec<u8>, decode: fn(u64, &[u8]) -> Got) -> Kind {
    Kind { name, sized: true, exact, unique, encode, decode }
}
pub const KINDS: &[Kind] = &[
    kind("public_key", false, true, |s| bincode::serialize(&key(s)).unwrap(), |s, b| ser(b, |k| key_alike(s, k))),
    kind(
        "packed_public_key",
        true,
        true,
        |s| rac::LineValid::clone_line(&key(s).compress()).to_vec(),
        |s, b| {
            if b.len() != 32 + 1088 {
                return Got::Refused;
            }
            match PublicKey::try_decompress(rac::Concat::clone_array(&ga(b))) {
                Some(k) => key_alike(s, &k),
                None => Got::Refused,
            }
        },
    ),
    kind("cloned_public_key", false, false, |s| bincode::serialize(&key(s).clone()).unwrap(), |s, b| ser(b, |k: &PublicKey| key_alike(s, &k.clone()))),
    kind("identity", false, true, |s| bincode::serialize(&ident(s)).unwrap(), |s, b| ser(b, |k: &Identity| same(*k == ident(s) && k.as_ref() == ident(s).as_ref()))),
    kind(
        "identity_text",
        true,
        false,
        |s| ident(s).to_string().into_bytes(),
        |s, b| match std::str::from_utf8(b).ok().and_then(|t| t.parse::<Identity>().ok()) {
            Some(k) => same(k == ident(s)),
            None => Got::Refused,
        },
    ),
    kind("kem_public_key", true, true, |s| kem_bytes(0, s), |s, b| kem_again(0, s, b)),
    kind("kem_secret_key", true, false, |s| kem_bytes(1, s), |s, b| kem_again(1, s, b)),
    kind("kem_ciphertext", true, true, |s| kem_bytes(2, s), |s, b| kem_again(2, s, b)),
    kind("point", true, true, |s| rac_repo::LineValid::clone_line(&point(s)).to_vec(), |s, b| line(b, |p: &EdwardsPoint| *p == point(s))),
    kind("packed_point", true, true, |s| rac_repo::Curve::compress(&point(s)).to_vec(), |s, b| match b.len() {
        32 => <EdwardsPoint as rac_repo::Curve>::decompress(&ga(b)).map_or(Got::Refused, |p| same(p == point(s))),
        _ => Got::Refused,
    }),
    kind("montgomery_point", true, false, |s| rac_repo::LineValid::clone_line(&point(s).to_montgomery()).to_vec(), |s, b| line(b, |p: &MontgomeryPoint| *p == point(s).to_montgomery())),
    kind("secret_scalar", true, false, |s| rac_repo::LineValid::clone_line(&scalar(s)).to_vec(), |s, b| line(b, |p: &Scalar| *p == scalar(s) && point(s) == <EdwardsPoint as rac_repo::Curve>::base().exp_ec(p))),
    kind("signature", true, true, signature, |s, b| line(b, |x: &Schnorr| {
        let m = seed(19, s, (s % 50) as usize);
        x.clone_line().to_vec() == signature(s) && x.verify(&Signer::new(&seed(20, s, 32)).pk, &m).is_ok()
    })),
    kind("secp_secret", true, true, |s| rac_repo::LineValid::clone_line(&secp_secret(s)).to_vec(), |s, b| line(b, |k: &secp256k1::SecretKey| *k == secp_secret(s))),
    kind("secp_public", true, true, |s| rac_repo::LineValid::clone_line(&secp_public(s)).to_vec(), |s, b| line(b, |k: &secp256k1::PublicKey| *k == secp_public(s))),
    kind("secp_packed_public", true, true, |s| rac_repo::Curve::compress(&secp_public(s)).to_vec(), |s, b| match b.len() {
        33 => <secp256k1::PublicKey as rac_repo::Curve>::decompress(&ga(b)).map_or(Got::Refused, |p| same(p == secp_public(s))),
        _ => Got::Refused,
    }),
    kind("secp_signature", true, true, |s| rac_repo::LineValid::clone_line(&secp_signature(s)).to_vec(), |s, b| line(b, |k: &secp256k1::Signature| *k == secp_signature(s))),
    kind("joined", true, true, |s| rac_repo::LineValid::clone_line(&joined(s)).to_vec(), |s, b| {
        line(b, |k: &Joined| {
            let j = joined(s);
            k.0 == j.0 && *k.as_ref_u() == *j.as_ref_u() && k.1 .0 == j.1 .0 && k.as_ref_v().1 .1 == j.1 .1 .1
        })
    }),
    kind("wrapped", false, true, |s| bincode::serialize(&rac_repo::LineLike(plain(s))).unwrap(), |s, b| {
        ser(b, |k: &rac_repo::LineLike<Plain>| {
            let (j, c) = (plain(s), k.clone());
            same(c.0 .0 == j.0 && c.0 .1 .0 == j.1 .0 && k.0 .1 .1 == j.1 .1)
        })
    }),
    kind("command", false, true, |s| bincode::serialize(&command(s)).unwrap(), |s, b| ser(b, |c| same(same_command(c, &command(s))))),
    kind("udp_command", false, true, |s| bincode::serialize(&udp_command(s)).unwrap(), |s, b| ser(b, |c| same(same_udp(c, &udp_command(s))))),
];
