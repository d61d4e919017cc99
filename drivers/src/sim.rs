//! The simulator's side door for test drivers: the operations to perform and a log.
use std::ffi::{CStr, CString};
use std::os::raw::c_char;
extern "C" {
    fn sim_input() -> *const c_char;
    fn sim_log(s: *const c_char);
    fn sim_mark();
}
pub fn input() -> Vec<Vec<String>> {
    let s = unsafe { CStr::from_ptr(sim_input()) }.to_str().unwrap();
    s.lines().map(|l| l.split_whitespace().map(|w| w.to_string()).collect()).collect()
}
pub fn log(s: &str) {
    let c = CString::new(s.replace('\0', "?")).unwrap();
    unsafe { sim_log(c.as_ptr()) }
}
pub fn mark() {
    unsafe { sim_mark() }
}
pub fn identity(i: u64) -> vru_session::handshake::Identity {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&i.to_le_bytes());
    for k in 8..32 {
        b[k] = (i as u8).wrapping_mul(31).wrapping_add(k as u8);
    }
    bincode::deserialize(&b).unwrap()
}
pub fn keys(i: u64) -> (vru_session::handshake::PublicKey, vru_session::handshake::SecretKey) {
    let mut seed = rac::Array::default();
    for (k, b) in seed.iter_mut().enumerate() {
        *b = (i as u8).wrapping_mul(7).wrapping_add(k as u8);
    }
    vru_session::handshake::PublicKey::gen(&seed)
}

/// a thread of the driver, which is started whatever the node's threads meet
pub fn thread<T: Send + 'static>(name: &str, arg: T, f: fn(T)) -> std::thread::JoinHandle<()> {
    let slot = std::sync::Arc::new(std::sync::Mutex::new(Some(arg)));
    loop {
        let s = slot.clone();
        let r = std::thread::Builder::new().name(name.into()).spawn(move || {
            let a = s.lock().unwrap().take();
            f(a.unwrap())
        });
        if let Ok(h) = r {
            return h;
        }
    }
}
