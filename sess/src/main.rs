mod real;
mod refnoise;
mod refxx;
mod xxsim;
mod chansim;
mod noisesim;
mod objects;
mod refkyber;
mod wiresim;
mod curvesim;

use std::time::Duration;
use vcore::*;

fn with<R>(id: &str, f: &mut dyn FnMut(&dyn DynSim) -> R) -> Option<R> {
    use xxsim::{Prop, XxSim};
    let xx = |p| W(XxSim::new(p));
    Some(match id {
        "C01" => f(&xx(Prop::C01)),
        "C02" => f(&xx(Prop::C02)),
        "C03" => f(&xx(Prop::C03)),
        "C04" => f(&xx(Prop::C04)),
        "C05" => f(&W(chansim::ChanSim { rotation: false })),
        "C06" => f(&W(chansim::ChanSim { rotation: true })),
        "C07" => f(&W(noisesim::NoiseSim)),
        "C22" => f(&W(wiresim::WireSim(wiresim::Prop::C22))),
        "C23" => f(&W(wiresim::WireSim(wiresim::Prop::C23))),
        "C24" => f(&W(wiresim::WireSim(wiresim::Prop::C24))),
        "C27" => f(&W(curvesim::CurveSim)),
        _ => return None,
    })
}
struct W<S: Sim>(S);
trait DynSim {
    fn check(&self, c: &Ctx, b: Budget) -> i32;
    fn replay(&self, c: &Ctx, r: &Replay) -> i32;
    fn det(&self, c: &Ctx, n: u64) -> Vec<(u64, u64)>;
}
impl<S: Sim> DynSim for W<S> {
    fn check(&self, c: &Ctx, b: Budget) -> i32 {
        check(c, &self.0, b)
    }
    fn replay(&self, c: &Ctx, r: &Replay) -> i32 {
        replay(c, &self.0, r)
    }
    fn det(&self, c: &Ctx, n: u64) -> Vec<(u64, u64)> {
        determinism(c, &self.0, n).into_iter().collect()
    }
}

fn runs(id: &str, tier: Tier) -> Budget {
    let q = match id {
        "C01" => 30_000,
        "C02" | "C03" | "C04" => 40_000,
        "C07" => 2_000_000,
        "C22" | "C23" => 80_000,
        "C24" => 22_000,
        "C27" => 16_000,
        _ => 50_000,
    };
    match tier {
        Tier::Quick => Budget { runs: q, wall: Duration::from_secs(150) },
        Tier::Thorough => Budget { runs: q * 40, wall: Duration::from_secs(3000) },
    }
}

fn main() {
    xxsim::quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let code = match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("check"), Some(id)) => {
            let ctx = Ctx::from_env(id);
            let mut b = runs(id, ctx.tier);
            if let Some(n) = std::env::var("VERIF_RUNS").ok().and_then(|s| s.parse().ok()) {
                b.runs = n;
            }
            with(id, &mut |s| s.check(&ctx, Budget { runs: b.runs, wall: b.wall })).unwrap_or(2)
        }
        (Some("det"), Some(id)) => {
            let ctx = Ctx::from_env(id);
            let n = std::env::var("VERIF_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(200);
            with(id, &mut |s| {
                for (i, h) in s.det(&ctx, n) {
                    println!("{} {:016x}", i, h);
                }
                0
            })
            .unwrap_or(2)
        }
        (Some("replay"), Some(f)) => {
            let t = std::fs::read_to_string(f).expect("read replay");
            let r: Replay = serde_json::from_str(&t).expect("parse replay");
            let mut ctx = Ctx::from_env(&r.property);
            ctx.seed = r.seed;
            with(&r.property.clone(), &mut |s| s.replay(&ctx, &r)).unwrap_or(2)
        }
        _ => {
            eprintln!("usage: sess check|det <ID> | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
