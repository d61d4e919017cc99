//! One server process per binary under test: every run is a fork of it.
use std::ffi::CString;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};

const SHM: usize = 96 << 20;
const PLAN: usize = 4096;
const PLAN_CAP: usize = (4 << 20) - 4096;
const TRACE: usize = 4 << 20;
const TRACE_CAP: usize = 12 << 20;
const DEVO: usize = 16 << 20;
const COV: usize = 17 << 20;
const COV_CAP: usize = 1 << 20;
const IMGI: usize = 18 << 20;
const IMG_CAP: usize = 38 << 20;
const IMGO: usize = 56 << 20;

pub struct Server {
    child: Child,
    shm: *mut u8,
    ctl: File,
    res: File,
    bin: String,
}
unsafe impl Send for Server {}

#[derive(Default, Clone)]
pub struct Ran {
    pub trace: String,
    pub devs: Option<Vec<(u64, u64)>>,
    pub image: Vec<u8>,
    pub points: u64,
    pub now_ns: u64,
    pub switches: u64,
    pub cov: u64,
    /// how it ended: exit, deadlock, horizon, budget, kill, power, abort, fault, cpu
    pub verdict: String,
    pub harness: Option<String>,
}

impl Server {
    pub fn new(bin: &str) -> Result<Server, String> {
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let path = format!("{}/target/drivers/release/{}", root, bin);
        unsafe {
            let name = CString::new("simrt").unwrap();
            let fd = libc::memfd_create(name.as_ptr(), libc::MFD_CLOEXEC);
            if fd < 0 {
                return Err("memfd_create failed".into());
            }
            let fd = OwnedFd::from_raw_fd(fd);
            if libc::ftruncate(fd.as_raw_fd(), SHM as i64) != 0 {
                return Err("ftruncate failed".into());
            }
            let shm = libc::mmap(std::ptr::null_mut(), SHM, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd.as_raw_fd(), 0);
            if shm == libc::MAP_FAILED {
                return Err("mmap failed".into());
            }
            let pipe = || {
                let mut p = [0; 2];
                if libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
                    return Err("pipe failed".to_string());
                }
                Ok((OwnedFd::from_raw_fd(p[0]), OwnedFd::from_raw_fd(p[1])))
            };
            let (ctl_r, ctl_w) = pipe()?;
            let (res_r, res_w) = pipe()?;
            let fds = [fd.as_raw_fd(), ctl_r.as_raw_fd(), res_w.as_raw_fd()];
            let mut c = Command::new(&path);
            c.env_clear()
                .env("SIMRT", "200,201,202")
                .env("RUST_BACKTRACE", "0")
                .env("PATH", "/usr/bin")
                .current_dir("/")
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null());
            c.pre_exec(move || {
                for (i, f) in fds.iter().enumerate() {
                    if libc::dup2(*f, 200 + i as i32) < 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                }
                // the same addresses in every process, where the host allows it
                libc::personality(0x0040000);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
            let child = c.spawn().map_err(|e| format!("cannot start {}: {}", path, e))?;
            Ok(Server { child, shm: shm as *mut u8, ctl: File::from(ctl_w), res: File::from(res_r), bin: bin.into() })
        }
    }
    fn slice(&self, off: usize, len: usize) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.shm.add(off), len) }
    }
    fn put(&mut self, off: usize, b: &[u8]) {
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.shm.add(off), b.len()) }
    }
    pub fn run(&mut self, plan: &str, image: &[u8]) -> Ran {
        let mut r = self.run1(plan, image);
        if r.harness.as_deref() == Some("no answer") {
            // a dead or stuck server: once more with a fresh one
            if let Ok(n) = Server::new(&self.bin) {
                *self = n;
                r = self.run1(plan, image);
            }
        }
        r
    }
    fn run1(&mut self, plan: &str, image: &[u8]) -> Ran {
        let mut r = Ran::default();
        if plan.len() > PLAN_CAP || image.len() > IMG_CAP {
            r.harness = Some("plan or image too large".into());
            return r;
        }
        self.put(PLAN, plan.as_bytes());
        self.put(IMGI, image);
        let mut h = [0u8; 64];
        h[0..4].copy_from_slice(&(plan.len() as u32).to_le_bytes());
        h[12..16].copy_from_slice(&(image.len() as u32).to_le_bytes());
        self.put(0, &h);
        if self.ctl.write_all(b"x").is_err() {
            r.harness = Some("no answer".into());
            return r;
        }
        let mut p = libc::pollfd { fd: self.res.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        let mut st = [0u8; 4];
        loop {
            let n = unsafe { libc::poll(&mut p, 1, 120_000) };
            if n < 0 {
                continue;
            }
            if n == 0 || self.res.read_exact(&mut st).is_err() {
                let _ = self.child.kill();
                r.harness = Some("no answer".into());
                return r;
            }
            break;
        }
        let st = i32::from_le_bytes(st);
        let h = self.slice(0, 64);
        let u = |i: usize| u32::from_le_bytes(h[i * 4..i * 4 + 4].try_into().unwrap());
        let q = |i: usize| u64::from_le_bytes(h[32 + i * 8..40 + i * 8].try_into().unwrap());
        let (tl, dl, io, done, over) = (u(1) as usize, u(2), u(4) as usize, u(5), u(6));
        r.points = q(0);
        r.now_ns = q(1);
        r.switches = q(2);
        let cov = self.slice(COV, COV_CAP);
        let last = cov.iter().rposition(|x| *x != 0).map(|x| x + 1).unwrap_or(0);
        r.cov = vcore::hash_of(&cov[..last]);
        r.trace = String::from_utf8_lossy(self.slice(TRACE, tl.min(TRACE_CAP))).into_owned();
        if dl != u32::MAX {
            let d = self.slice(DEVO, dl as usize * 12);
            r.devs = Some(
                d.chunks(12)
                    .map(|c| {
                        (u64::from_le_bytes(c[..8].try_into().unwrap()), u32::from_le_bytes(c[8..].try_into().unwrap()) as u64)
                    })
                    .collect(),
            );
        }
        r.image = self.slice(IMGO, io).to_vec();
        if over != 0 {
            r.harness = Some("trace overflow".into());
        }
        if done == 0 {
            r.verdict = if libc::WIFSIGNALED(st) {
                match libc::WTERMSIG(st) {
                    libc::SIGXCPU => "cpu".into(),
                    libc::SIGKILL => {
                        r.harness = Some("the run was killed from outside".into());
                        "killed".into()
                    }
                    s => format!("signal {}", s),
                }
            } else {
                r.harness = Some(format!("run ended without a verdict, status {:#x}", st));
                "none".into()
            };
        } else {
            r.verdict = r.trace.lines().rev().find_map(|l| l.split_once("|END|").map(|x| x.1.to_string())).unwrap_or_default();
        }
        if let Some(l) = r.trace.lines().find(|l| l.contains("|HARNESS|")) {
            r.harness = Some(l.to_string());
        }
        r
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        unsafe {
            libc::munmap(self.shm as *mut libc::c_void, SHM);
        }
    }
}
