mod client;
mod daemon;
mod host;
mod plan;
mod tcp;
mod udp;

use std::time::Duration;
use vcore::*;

fn with<R>(id: &str, f: &mut dyn FnMut(&dyn DynSim) -> R) -> Option<R> {
    Some(match id {
        "C08" => f(&W(udp::UdpSim(udp::Prop::C08))),
        "C09" => f(&W(udp::UdpSim(udp::Prop::C09))),
        "C10" => f(&W(udp::UdpSim(udp::Prop::C10))),
        "C11" => f(&W(udp::UdpSim(udp::Prop::C11))),
        "C12" => f(&W(tcp::TcpSim(tcp::Prop::C12))),
        "C13" => f(&W(tcp::TcpSim(tcp::Prop::C13))),
        "C14" => f(&W(tcp::TcpSim(tcp::Prop::C14))),
        "C15" => f(&W(daemon::DaemonSim(daemon::Prop::C15))),
        "C16" => f(&W(daemon::DaemonSim(daemon::Prop::C16))),
        "C17" => f(&W(daemon::DaemonSim(daemon::Prop::C17))),
        "C18" => f(&W(daemon::DaemonSim(daemon::Prop::C18))),
        "C19" => f(&W(daemon::DaemonSim(daemon::Prop::C19))),
        "C20" => f(&W(daemon::DaemonSim(daemon::Prop::C20))),
        "C25" => f(&W(daemon::DaemonSim(daemon::Prop::C25))),
        "C26" => f(&W(daemon::DaemonSim(daemon::Prop::C26))),
        "C21" => f(&W(client::ClientSim)),
        _ => return None,
    })
}
struct W<S: Sim>(S);
trait DynSim {
    fn check(&self, c: &Ctx, b: Budget) -> i32;
    fn replay(&self, c: &Ctx, r: &Replay) -> i32;
    fn det(&self, c: &Ctx, n: u64) -> Vec<(u64, u64)>;
    fn conc(&self, c: &Ctx, n: u64) -> i32;
}
impl<S: Sim> DynSim for W<S> {
    fn check(&self, c: &Ctx, b: Budget) -> i32 {
        check(c, &self.0, b)
    }
    fn replay(&self, c: &Ctx, r: &Replay) -> i32 {
        replay(c, &self.0, r)
    }
    fn det(&self, c: &Ctx, n: u64) -> Vec<(u64, u64)> {
        determinism(c, &self.0, n).into_iter().collect()
    }
    /// self-test: does each seeded schedule, made explicit, give the same run?
    fn conc(&self, c: &Ctx, n: u64) -> i32 {
        let mut w = self.0.worker().expect("worker");
        let mut bad = 0;
        for i in 0..n {
            let p = self.0.generate(&mut c.plan_rng(i), i, c.tier);
            let a = self.0.run(&mut w, &p);
            let q = self.0.concrete(&mut w, &p);
            let b = self.0.run(&mut w, &q);
            if a.log_hash != b.log_hash {
                bad += 1;
                println!("run {} differs", i);
                if bad == 1 {
                    let k = a.log.iter().zip(&b.log).position(|(x, y)| x != y).unwrap_or(0);
                    println!("at line {}:\n{}\n{}", k, a.log[k.saturating_sub(12)..(k + 2).min(a.log.len())].join("\n"), b.log[k..(k + 2).min(b.log.len())].join("\n"));
                }
            }
        }
        println!("{} of {} explicit schedules differ", bad, n);
        (bad > 0) as i32
    }
}

fn runs(id: &str, tier: Tier) -> Budget {
    let q = match id {
        "C08" | "C09" | "C10" | "C11" => 100_000,
        "C12" | "C13" | "C14" => 200_000,
        "C15" | "C20" => 8_000,
        "C17" | "C19" => 15_000,
        "C18" => 10_000,
        "C21" => 100_000,
        _ => 15_000,
    };
    match tier {
        Tier::Quick => Budget { runs: q, wall: Duration::from_secs(150) },
        Tier::Thorough => Budget { runs: q * 100, wall: Duration::from_secs(3000) },
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("check"), Some(id)) => {
            let ctx = Ctx::from_env(id);
            let mut b = runs(id, ctx.tier);
            if let Some(n) = std::env::var("VERIF_RUNS").ok().and_then(|s| s.parse().ok()) {
                b.runs = n;
            }
            with(id, &mut |s| s.check(&ctx, Budget { runs: b.runs, wall: b.wall })).unwrap_or(2)
        }
        (Some("det"), Some(id)) => {
            let ctx = Ctx::from_env(id);
            let n = std::env::var("VERIF_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(200);
            with(id, &mut |s| {
                for (i, h) in s.det(&ctx, n) {
                    println!("{} {:016x}", i, h);
                }
                0
            })
            .unwrap_or(2)
        }
        (Some("conc"), Some(id)) => {
            let ctx = Ctx::from_env(id);
            let n = std::env::var("VERIF_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(100);
            with(id, &mut |s| s.conc(&ctx, n)).unwrap_or(2)
        }
        (Some("replay"), Some(f)) => {
            let t = std::fs::read_to_string(f).expect("read replay");
            let r: Replay = serde_json::from_str(&t).expect("parse replay");
            let mut ctx = Ctx::from_env(&r.property);
            ctx.seed = r.seed;
            with(&r.property.clone(), &mut |s| s.replay(&ctx, &r)).unwrap_or(2)
        }
        _ => {
            eprintln!("usage: vsim check|det|conc <ID> | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
