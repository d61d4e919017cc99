//! An independent, byte-level implementation of the Noise symmetric state
//! (specification revision 34) used as reference model. It shares no code
//! with vru-noise: HMAC and HKDF are written out here, only the bare hash
//! functions and AEADs come from the same third-party crates.
use chacha20poly1305::aead::{AeadInPlace, NewAead};
use generic_array::GenericArray;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum H {
    Sha256,
    Sha512,
    Sha3_256,
    Sha3_512,
}
impl H {
    pub fn hash(self, parts: &[&[u8]]) -> Vec<u8> {
        use sha2::Digest as _;
        macro_rules! go {
            ($t:ty) => {{
                let mut d = <$t>::new();
                for p in parts {
                    d.update(p);
                }
                d.finalize().to_vec()
            }};
        }
        match self {
            H::Sha256 => go!(sha2::Sha256),
            H::Sha512 => go!(sha2::Sha512),
            H::Sha3_256 => go!(sha3::Sha3_256),
            H::Sha3_512 => go!(sha3::Sha3_512),
        }
    }
    pub fn len(self) -> usize {
        match self {
            H::Sha256 | H::Sha3_256 => 32,
            _ => 64,
        }
    }
    fn block(self) -> usize {
        match self {
            H::Sha256 => 64,
            H::Sha512 => 128,
            H::Sha3_256 => 136,
            H::Sha3_512 => 72,
        }
    }
    pub fn hmac(self, key: &[u8], parts: &[&[u8]]) -> Vec<u8> {
        let mut k = if key.len() > self.block() { self.hash(&[key]) } else { key.to_vec() };
        k.resize(self.block(), 0);
        let i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
        let o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
        let mut v: Vec<&[u8]> = vec![&i];
        v.extend_from_slice(parts);
        let inner = self.hash(&v);
        self.hash(&[&o, &inner])
    }
    /// Noise HKDF with n outputs
    pub fn hkdf(self, ck: &[u8], ikm: &[u8], n: u8) -> Vec<Vec<u8>> {
        let t = self.hmac(ck, &[ikm]);
        let mut out: Vec<Vec<u8>> = vec![];
        for i in 1..=n {
            let prev = out.last().cloned().unwrap_or_default();
            out.push(self.hmac(&t, &[&prev, &[i]]));
        }
        out
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum A {
    ChaCha,
    AesGcm,
}
impl A {
    /// ChaChaPoly uses a little-endian counter, AESGCM a big-endian one
    fn nonce(self, n: u64) -> [u8; 12] {
        let mut b = [0; 12];
        b[4..].copy_from_slice(&match self {
            A::ChaCha => n.to_le_bytes(),
            A::AesGcm => n.to_be_bytes(),
        });
        b
    }
    pub fn seal(self, key: &[u8], n: u64, ad: &[u8], data: &[u8]) -> Vec<u8> {
        let nonce = self.nonce(n);
        let nonce = GenericArray::from_slice(&nonce);
        let mut b = data.to_vec();
        let key = GenericArray::from_slice(&key[..32]);
        let tag = match self {
            A::ChaCha => chacha20poly1305::ChaCha20Poly1305::new(key).encrypt_in_place_detached(nonce, ad, &mut b).unwrap().to_vec(),
            A::AesGcm => aes_gcm::Aes256Gcm::new(key).encrypt_in_place_detached(nonce, ad, &mut b).unwrap().to_vec(),
        };
        b.extend(tag);
        b
    }
    pub fn open(self, key: &[u8], n: u64, ad: &[u8], data: &[u8]) -> Option<Vec<u8>> {
        if data.len() < 16 {
            return None;
        }
        let nonce = self.nonce(n);
        let nonce = GenericArray::from_slice(&nonce);
        let (b, tag) = data.split_at(data.len() - 16);
        let mut b = b.to_vec();
        let tag = GenericArray::from_slice(tag);
        let key = GenericArray::from_slice(&key[..32]);
        let r = match self {
            A::ChaCha => chacha20poly1305::ChaCha20Poly1305::new(key).decrypt_in_place_detached(nonce, ad, &mut b, tag).is_ok(),
            A::AesGcm => aes_gcm::Aes256Gcm::new(key).decrypt_in_place_detached(nonce, ad, &mut b, tag).is_ok(),
        };
        r.then_some(b)
    }
}

#[derive(Clone)]
pub struct Sym {
    pub hash: H,
    pub aead: A,
    pub ck: Vec<u8>,
    pub h: Vec<u8>,
    pub k: Option<Vec<u8>>,
    pub n: u64,
}
impl Sym {
    pub fn new(hash: H, aead: A, name: &[u8]) -> Sym {
        let mut h = name.to_vec();
        if h.len() <= hash.len() {
            h.resize(hash.len(), 0);
        } else {
            h = hash.hash(&[name]);
        }
        Sym { hash, aead, ck: h.clone(), h, k: None, n: 0 }
    }
    pub fn mix_hash(&mut self, d: &[u8]) {
        self.h = self.hash.hash(&[&self.h, d]);
    }
    pub fn mix_key(&mut self, ikm: &[u8]) {
        let mut o = self.hash.hkdf(&self.ck, ikm, 2);
        self.k = o.pop().map(|mut k| {
            k.truncate(32);
            k
        });
        self.ck = o.pop().unwrap();
        self.n = 0;
    }
    pub fn mix_key_and_hash(&mut self, ikm: &[u8]) {
        let mut o = self.hash.hkdf(&self.ck, ikm, 3);
        self.k = o.pop().map(|mut k| {
            k.truncate(32);
            k
        });
        let t = o.pop().unwrap();
        self.ck = o.pop().unwrap();
        self.mix_hash(&t);
        self.n = 0;
    }
    pub fn seal(&mut self, d: &[u8]) -> Vec<u8> {
        let c = self.aead.seal(self.k.as_ref().expect("key"), self.n, &self.h, d);
        self.n += 1;
        self.mix_hash(&c);
        c
    }
    pub fn open(&mut self, c: &[u8]) -> Option<Vec<u8>> {
        let d = self.aead.open(self.k.as_ref().expect("key"), self.n, &self.h, c)?;
        self.n += 1;
        self.mix_hash(c);
        Some(d)
    }
    /// (initiator to responder, responder to initiator)
    pub fn split(&self) -> (Vec<u8>, Vec<u8>) {
        let mut o = self.hash.hkdf(&self.ck, &[], 2);
        let mut b = o.pop().unwrap();
        let mut a = o.pop().unwrap();
        a.truncate(32);
        b.truncate(32);
        (a, b)
    }
}
