//! C06: Brownian, CIR, Hull-White, FX-HHW and FX-HHW-stock steps against their stated dynamics.
use crate::core::engine::*;
use crate::core::prng::Prng;
use crate::core::stepworld;

pub struct C06;
impl Property for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 8_000_000 } else { 500_000 }
    }
    fn rule(&self) -> &'static str {
        "a run = one simulator (Brownian, geometric Brownian, CIR, Hull-White, FX-HHW, FX-HHW stock) with seeded parameters walked through 2-14 steps of varied length along its own or scripted shocks (incl. to the zero boundary); at visited steps a scripted-draw experiment (zero shock, unit shocks, random shock vectors) is compared with the stated drift, covariance and truncation, and batches and dated runs with the iteration of steps; non-trivial = a step was taken; distinct by hash of the visited states"
    }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["BrownianMotion", "GeometricBrownianMotion", "CirSimulator", "HullWhiteSimulator", "FxHhwSimulator", "FxHhwStockSimulator", "simulate_at_dates", "rand_distr StandardNormal"], &["ChaCha20 word stream (scripted during experiments)"])
    }
    fn generate(&self, r: &mut Prng, _idx: u64, _t: bool) -> Plan {
        stepworld::generate(r, &[0, 1, 2, 3, 4, 4, 5, 5])
    }
    fn execute(&self, plan: &Plan, ctx: &mut Ctx) -> Outcome {
        stepworld::execute(plan, ctx, |_, _, _, _, _| Ok(()))
    }
}
