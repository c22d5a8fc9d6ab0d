//! C07: SABR and time-dependent SABR steps against their stated dynamics.
use crate::core::engine::*;
use crate::core::prng::Prng;
use crate::core::simworld::{Inst, Spec};
use crate::core::stepworld;
use crate::ensure;

pub struct C07;
impl Property for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 8_000_000 } else { 500_000 }
    }
    fn rule(&self) -> &'static str {
        "a run = one simulator (SABR, time-dependent SABR) with seeded parameters walked through 2-14 steps of varied length along its own or scripted shocks (incl. to the zero boundary); at visited steps a scripted-draw experiment (zero shock, unit shocks, random shock vectors) is compared with the stated drift, covariance and truncation, and batches and dated runs with the iteration of steps; non-trivial = a step was taken; distinct by hash of the visited states"
    }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["SabrSimulator", "TimeDependentSabrSimulator", "PiecewiseConstant", "simulate_at_dates", "rand_distr StandardNormal"], &["ChaCha20 word stream (scripted during experiments)"])
    }
    fn generate(&self, r: &mut Prng, _idx: u64, _t: bool) -> Plan {
        stepworld::generate(r, &[6, 7, 7])
    }
    fn execute(&self, plan: &Plan, ctx: &mut Ctx) -> Outcome {
        stepworld::execute(plan, ctx, |spec, _, t, inst, ctx| {
            if let (Spec::Td { al, rho, nu, b, f0, .. }, Inst::Td(sim), true) = (spec, inst, t == 0.0) {
                let spread = |v: &[f64]| v.iter().fold(0.0f64, |m, x| m.max((x - v[0]).abs()));
                let wide = spread(al).max(spread(rho)).max(spread(nu));
                let got = no_panic("reduces_to_constant", || sim.reduces_to_constant())?;
                ctx.count(if got.is_some() { "probe.reduces" } else { "probe.does_not_reduce" });
                match got {
                    Some(c) => {
                        ensure!(wide <= 1e-11, "reduces", "schedules that vary by {wide:e} are said to be constant");
                        let p = c.params;
                        ensure!(
                            (p.alpha - al[0]).abs() < 1e-11 && (p.rho - rho[0]).abs() < 1e-11 && (p.nu - nu[0]).abs() < 1e-11 && p.beta == *b && c.forward_0 == *f0,
                            "reduces",
                            "constant schedules reduce to other parameters: {p:?}, forward {}",
                            c.forward_0
                        );
                    }
                    None => ensure!(wide > 0.0, "reduces", "constant schedules do not reduce to a constant simulator"),
                }
            }
            Ok(())
        })
    }
}
