//! The real handshake code behind a byte-level interface: one table of
//! functions per combination of payload sizes.
use rac::{generic_array::typenum::*, Array, Concat, Line, LineValid};
use vru_noise::{Cipher, Rotor};
use vru_session::handshake::{xx, Identity, PublicKey, SecretKey, TrivialRotor};

pub type Chan = Cipher<(sha3::Sha3_256, byteorder::LittleEndian, chacha20poly1305::ChaCha20Poly1305), TrivialRotor>;
type N = (sha3::Sha3_256, byteorder::LittleEndian, chacha20poly1305::ChaCha20Poly1305);

pub struct Fin<C> {
    pub cipher: C,
    pub hash: Vec<u8>,
}

pub struct Combo {
    pub p: usize,
    pub q: usize,
    pub r: usize,
    pub s: usize,
    pub out0: fn(&[u8], &Identity) -> (xx::InitiatorsEphemeral, Vec<u8>),
    pub take0_out1: fn(&[u8], &Identity, &PublicKey, &SecretKey, &[u8], &[u8]) -> (xx::RespondersEphemeral, Vec<u8>),
    #[allow(clippy::type_complexity)]
    pub take1_out2: fn(&[u8], xx::InitiatorsEphemeral, &PublicKey, &SecretKey, &[u8], &[u8], &[u8]) -> Result<(xx::InitiatorsFinal, PublicKey, Vec<u8>, Vec<u8>), String>,
    #[allow(clippy::type_complexity)]
    pub take2_out3: fn(&[u8], xx::RespondersEphemeral, &PublicKey, &SecretKey, &[u8], &[u8]) -> Result<(Fin<Chan>, PublicKey, Vec<u8>, Vec<u8>, Vec<u8>), String>,
    pub take_3: fn(xx::InitiatorsFinal, &PublicKey, &SecretKey, &[u8]) -> Result<(Fin<Chan>, Vec<u8>), String>,
}

fn cut<L: Line>(b: &mut &[u8]) -> L {
    let n = <L::Length as Unsigned>::USIZE;
    let (h, t) = b.split_at(n);
    *b = t;
    L::clone_array(Array::from_slice(h))
}
fn arr<L: rac::generic_array::ArrayLength<u8>>(b: &[u8]) -> Array<L> {
    Array::from_slice(b).clone()
}

macro_rules! combo {
    ($P:ty, $Q:ty, $R:ty, $S:ty) => {{
        type P = Array<$P>;
        type Q = Array<$Q>;
        type R = Array<$R>;
        type S = Array<$S>;
        Combo {
            p: <$P>::USIZE,
            q: <$Q>::USIZE,
            r: <$R>::USIZE,
            s: <$S>::USIZE,
            out0: |seed, pi| {
                let (st, m) = xx::out0(Array::from_slice(seed), pi);
                (st, m.clone_line().to_vec())
            },
            take0_out1: |seed, pi, pk, sk, m, p| {
                let seed = Concat(arr::<U96>(&seed[..96]), arr::<U32>(&seed[96..128]));
                let mut m = m;
                let (st, m1) = xx::take0_out1::<P>(&seed, pi, pk, sk, cut(&mut m), arr::<$P>(p));
                let out = [m1.0.clone_line().to_vec(), m1.1.clone_line().to_vec(), m1.2.clone_line().to_vec()].concat();
                (st, out)
            },
            take1_out2: |seed, st, pk, sk, m, q, r| {
                let seed = Concat(arr::<U32>(&seed[..32]), arr::<U32>(&seed[32..64]));
                let mut m = m;
                let m1: xx::Message1<P> = (cut(&mut m), cut(&mut m), cut(&mut m));
                match xx::take1_out2::<P, Q, R>(&seed, st, pk, sk, m1, arr::<$Q>(q), arr::<$R>(r)) {
                    Ok((st, pk, p, m2)) => {
                        let out = [m2.0.clone_line().to_vec(), m2.1.clone_line().to_vec(), m2.2.clone_line().to_vec()].concat();
                        Ok((st, pk, p.to_vec(), out))
                    }
                    Err(e) => Err(e.to_string()),
                }
            },
            take2_out3: |seed, st, pk, sk, m, s| {
                let mut m = m;
                let m2: xx::Message2<Q, R> = (cut(&mut m), cut(&mut m), cut(&mut m));
                match xx::take2_out3::<Q, R, S, TrivialRotor>(Array::from_slice(seed), st, pk, sk, m2, arr::<$S>(s)) {
                    Ok((cipher, hash, pk, q, r, m3)) => Ok((Fin { cipher, hash: hash.to_vec() }, pk, q.to_vec(), r.to_vec(), m3.clone_line().to_vec())),
                    Err(e) => Err(e.to_string()),
                }
            },
            take_3: |st, pk, sk, m| {
                let mut m = m;
                let m3: xx::Message3<S> = cut(&mut m);
                match xx::take_3::<S, TrivialRotor>(st, pk, sk, m3) {
                    Ok((cipher, hash, s)) => Ok((Fin { cipher, hash: hash.to_vec() }, s.to_vec())),
                    Err(e) => Err(e.to_string()),
                }
            },
        }
    }};
}

pub fn combos() -> Vec<Combo> {
    vec![
        combo!(U16, U16, U16, U16),
        combo!(U0, U0, U0, U0),
        combo!(U120, U120, U120, U120),
        combo!(U104, U136, U256, U0),
        combo!(U1, U119, U121, U512),
        combo!(U1024, U0, U64, U5),
        combo!(U0, U1000, U256, U136),
        combo!(U32, U64, U128, U256),
    ]
}

/// A finished handshake between two fresh parties with a rotation policy of
/// the caller's: (initiator's channel, responder's channel)
pub fn pair<Z: Rotor<N>>(seed: &[u8]) -> Result<(Cipher<N, Z>, Cipher<N, Z>), String> {
    let a = |i: usize, n: usize| &seed[i..i + n];
    let (i_pk, i_sk) = PublicKey::gen(Array::from_slice(a(0, 96)));
    let (r_pk, r_sk) = PublicKey::gen(Array::from_slice(a(96, 96)));
    let pi = r_pk.identity();
    let (i, m) = xx::out0(Array::from_slice(a(192, 96)), &pi);
    let sd = Concat(arr::<U96>(a(288, 96)), arr::<U32>(a(384, 32)));
    let (r, m) = xx::take0_out1::<Array<U0>>(&sd, &pi, &r_pk, &r_sk, m, Default::default());
    let sd = Concat(arr::<U32>(a(416, 32)), arr::<U32>(a(448, 32)));
    let (i, _, _, m) = xx::take1_out2::<Array<U0>, Array<U0>, Array<U0>>(&sd, i, &i_pk, &i_sk, m, Default::default(), Default::default()).map_err(|e| e.to_string())?;
    let (rc, _, _, _, _, m) = xx::take2_out3::<Array<U0>, Array<U0>, Array<U0>, Z>(Array::from_slice(a(480, 32)), r, &r_pk, &r_sk, m, Default::default()).map_err(|e| e.to_string())?;
    let (ic, _, _) = xx::take_3::<Array<U0>, Z>(i, &i_pk, &i_sk, m).map_err(|e| e.to_string())?;
    Ok((ic, rc))
}
