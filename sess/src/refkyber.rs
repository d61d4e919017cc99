//! The lattice KEM (first-round parameters, q = 7681), written from its
//! definition: polynomials are multiplied by evaluating them at the odd powers
//! of a 512th root of unity, without the number-theoretic butterfly.
use sha3::digest::{Digest, ExtendableOutput, Update, XofReader};
use std::sync::OnceLock;

pub const Q: u32 = 7681;
const N: usize = 256;
type P = [u32; N];

struct Tables {
    /// at[i][j]: the i-th point to the power j
    at: Vec<[i16; N]>,
    /// the inverse: coefficient j from the values
    inv: Vec<[i16; N]>,
}
fn pow(mut b: u32, mut e: u32) -> u32 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % Q;
        }
        b = b * b % Q;
        e >>= 1;
    }
    r
}
fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        // the smallest element of order 512
        let psi = 62;
        assert!(pow(psi, 256) == Q - 1);
        let ninv = pow(N as u32, Q - 2);
        let mut at = vec![[0i16; N]; N];
        let mut inv = vec![[0i16; N]; N];
        for (i, row) in at.iter_mut().enumerate() {
            let w = pow(psi, 2 * (i as u8).reverse_bits() as u32 + 1);
            for (j, x) in row.iter_mut().enumerate() {
                *x = pow(w, j as u32) as i16;
            }
        }
        for i in 0..N {
            for j in 0..N {
                inv[j][i] = (pow(at[i][j] as u32, Q - 2) * ninv % Q) as i16;
            }
        }
        Tables { at, inv }
    })
}
fn apply(m: &[[i16; N]], p: &P) -> P {
    let mut q = [0i16; N];
    for (x, y) in q.iter_mut().zip(p) {
        *x = (y % Q) as i16;
    }
    let mut r = [0; N];
    for (x, row) in r.iter_mut().zip(m) {
        let mut s = 0u64;
        // 32 products fit
        for (a, b) in row.chunks_exact(32).zip(q.chunks_exact(32)) {
            s += a.iter().zip(b).map(|(a, b)| *a as i32 * *b as i32).sum::<i32>() as u64;
        }
        *x = (s % Q as u64) as u32;
    }
    r
}
fn values(p: &P) -> P {
    apply(&tables().at, p)
}
fn coefficients(p: &P) -> P {
    apply(&tables().inv, p)
}
/// the coefficients of the sum of products of what has these values
fn dot(a: &[P], b: &[P]) -> P {
    let mut s = [0; N];
    for (a, b) in a.iter().zip(b) {
        for i in 0..N {
            s[i] = (s[i] + a[i] * b[i]) % Q;
        }
    }
    coefficients(&s)
}
fn add(a: &P, b: &P) -> P {
    let mut r = [0; N];
    for i in 0..N {
        r[i] = (a[i] + b[i]) % Q;
    }
    r
}
fn matrix(seed: &[u8], w: usize) -> Vec<Vec<P>> {
    let one = |i: usize, j: usize| {
        let mut x = sha3::Shake128::default();
        Update::update(&mut x, seed);
        Update::update(&mut x, [j as u8, i as u8]);
        let mut x = x.finalize_xof();
        let mut p = [0; N];
        let mut n = 0;
        while n < N {
            let mut b = [0; 2];
            x.read(&mut b);
            let v = u16::from_le_bytes(b) as u32 & 0x1fff;
            if v < Q {
                p[n] = v;
                n += 1;
            }
        }
        p
    };
    (0..w).map(|i| (0..w).map(|j| one(i, j)).collect()).collect()
}
/// a centered binomial sample
fn noise(seed: &[u8], nonce: usize, w: usize) -> P {
    let eta = [5, 4, 3][w - 2];
    let mut x = sha3::Shake256::default();
    Update::update(&mut x, seed);
    Update::update(&mut x, [nonce as u8]);
    let mut b = vec![0; N * 2 * eta / 8];
    x.finalize_xof().read(&mut b);
    let bit = |k: usize| (b[k / 8] >> (k % 8) & 1) as u32;
    let mut p = [0; N];
    for (i, x) in p.iter_mut().enumerate() {
        let (mut s, mut t) = (0, 0);
        for k in 0..eta {
            s += bit(2 * eta * i + k);
            t += bit(2 * eta * i + eta + k);
        }
        *x = (s + Q - t) % Q;
    }
    p
}
/// numbers of `d` bits, least significant first
fn pack(v: &[u32], d: usize) -> Vec<u8> {
    let mut b = vec![0u8; v.len() * d / 8];
    for (i, x) in v.iter().enumerate() {
        for k in 0..d {
            b[(i * d + k) / 8] |= ((x >> k & 1) as u8) << ((i * d + k) % 8);
        }
    }
    b
}
fn unpack(b: &[u8], d: usize) -> P {
    let mut p = [0; N];
    for (i, x) in p.iter_mut().enumerate() {
        for k in 0..d {
            *x |= (b[(i * d + k) / 8] as u32 >> ((i * d + k) % 8) & 1) << k;
        }
    }
    p
}
fn compress(p: &P, d: usize) -> Vec<u8> {
    let v: Vec<u32> = p.iter().map(|x| ((x << d) + Q / 2) / Q % (1 << d)).collect();
    pack(&v, d)
}
fn decompress(b: &[u8], d: usize) -> P {
    let mut p = unpack(b, d);
    for x in &mut p {
        *x = (*x * Q + (1 << (d - 1))) >> d;
    }
    p
}
fn sha256(b: &[&[u8]]) -> Vec<u8> {
    let mut h = sha3::Sha3_256::new();
    b.iter().for_each(|b| Digest::update(&mut h, b));
    h.finalize().to_vec()
}
fn sha512(b: &[&[u8]]) -> Vec<u8> {
    let mut h = sha3::Sha3_512::new();
    b.iter().for_each(|b| Digest::update(&mut h, b));
    h.finalize().to_vec()
}
pub fn hash(b: &[u8]) -> Vec<u8> {
    sha256(&[b])
}

/// secret key and public key as bytes
pub fn generate(seed: &[u8], w: usize) -> (Vec<u8>, Vec<u8>) {
    let c = sha512(&[&seed[..32]]);
    let a = matrix(&c[..32], w);
    let s: Vec<P> = (0..w).map(|i| values(&noise(&c[32..], i, w))).collect();
    let mut pk = vec![];
    for i in 0..w {
        pk.extend(compress(&add(&dot(&a[i], &s), &noise(&c[32..], w + i, w)), 11));
    }
    pk.extend(&c[..32]);
    let mut sk: Vec<u8> = s.iter().flat_map(|p| pack(p, 13)).collect();
    sk.extend(&seed[32..64]);
    (sk, pk)
}
fn encrypt(coins: &[u8], m: &[u8], pk: &[u8], w: usize) -> Vec<u8> {
    let t: Vec<P> = pk[..352 * w].chunks(352).map(|b| values(&decompress(b, 11))).collect();
    let a = matrix(&pk[352 * w..], w);
    let s: Vec<P> = (0..w).map(|i| values(&noise(coins, i, w))).collect();
    let mut ct = vec![];
    for i in 0..w {
        let col: Vec<P> = (0..w).map(|j| a[j][i]).collect();
        ct.extend(compress(&add(&dot(&col, &s), &noise(coins, w + i, w)), 11));
    }
    let mut k = [0; N];
    for (i, x) in k.iter_mut().enumerate() {
        *x = (m[i / 8] as u32 >> (i % 8) & 1) * ((Q + 1) / 2);
    }
    ct.extend(compress(&add(&add(&dot(&t, &s), &noise(coins, 2 * w, w)), &k), 3));
    ct
}
/// ciphertext and shared secret
pub fn encapsulate(seed: &[u8], pk: &[u8], pk_hash: &[u8], w: usize) -> (Vec<u8>, Vec<u8>) {
    let m = sha256(&[seed]);
    let c = sha512(&[&m, pk_hash]);
    let ct = encrypt(&c[32..], &m, pk, w);
    let ss = sha256(&[&c[..32], &sha256(&[&ct])]);
    (ct, ss)
}
/// shared secret, and whether the ciphertext was genuine
pub fn decapsulate(sk: &[u8], pk: &[u8], pk_hash: &[u8], ct: &[u8], w: usize) -> (Vec<u8>, bool) {
    let s: Vec<P> = sk[..416 * w].chunks(416).map(|b| unpack(b, 13)).collect();
    let b: Vec<P> = ct[..352 * w].chunks(352).map(|b| values(&decompress(b, 11))).collect();
    let x = dot(&s, &b);
    let v = decompress(&ct[352 * w..], 3);
    let mut m = vec![0; 32];
    for i in 0..N {
        let d = (v[i] + Q - x[i]) % Q;
        m[i / 8] |= (((2 * d + Q / 2) / Q & 1) as u8) << (i % 8);
    }
    let c = sha512(&[&m, pk_hash]);
    let good = encrypt(&c[32..], &m, pk, w) == ct;
    let k = if good { &c[..32] } else { &sk[416 * w..416 * w + 32] };
    (sha256(&[k, &sha256(&[ct])]), good)
}
