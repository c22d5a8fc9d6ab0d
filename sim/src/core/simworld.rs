//! Every path simulator behind one interface: parameters as data, states as vectors, the stated
//! one-step dynamics as a reference, and the scripted-draw experiment that compares the two.
use super::engine::*;
use super::prng::Prng;
use super::seams::{realised, with_normals};
use super::util::*;
use crate::ensure;
use chrono::NaiveDate;
use finquant::models::common::cir::{CirProcess, CirSimulator};
use finquant::models::common::simulation::{BrownianMotion, GeometricBrownianMotion, SimulationModel, simulate_at_dates};
use finquant::models::forex::fx_fmm::{FmmSide, FxFmmCorrelations, FxFmmParams};
use finquant::models::forex::fx_fmm_simulator::{FxFmmSimulator, FxFmmState};
use finquant::models::forex::fx_hhw::{Correlation4x4, FxHhwParams, FxHhwSimulator, FxHhwState};
use finquant::models::forex::fx_hhw_stock::{ForeignStock, FxHhwStockSimulator, FxHhwStockState};
use finquant::models::forex::dupire_local_vol::DupireLocalVol;
use finquant::models::forex::sabr_slv::TimeDependentSabrSlvSimulator;
use finquant::models::forex::sabr::{SabrParams, SabrSimulator, SabrState};
use finquant::models::forex::sabr_effective::PiecewiseConstant;
use finquant::models::forex::sabr_time_dependent::{TimeDependentSabrParams, TimeDependentSabrSimulator};
use finquant::models::interestrate::fmm::{Fmm, FmmPath, FmmSimulator, FmmTenor, LinearDecay, VolSchedule};
use finquant::models::interestrate::hull_white::{HullWhite1F, HullWhiteSimulator};
use finquant::time::daycounters::DayCounters;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub struct CirQ {
    pub kappa: f64,
    pub theta: f64,
    pub gamma: f64,
    pub v0: f64,
}
impl CirQ {
    pub fn lib(&self) -> CirProcess {
        CirProcess { kappa: self.kappa, theta: self.theta, gamma: self.gamma, sigma_0: self.v0 }
    }
}

/// θ(t) = a + b t + c sin 7t
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub struct Theta {
    pub a: f64,
    pub b: f64,
    #[serde(default)]
    pub c: f64,
}
impl Theta {
    pub fn at(&self, t: f64) -> f64 {
        self.a + self.b * t + if self.c == 0.0 { 0.0 } else { self.c * (7.0 * t).sin() }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct HhwQ {
    pub fx0: f64,
    pub var: CirQ,
    pub lam: [f64; 2],
    pub eta: [f64; 2],
    pub r0: [f64; 2],
    pub theta: [f64; 2],
    /// xs, xd, xf, sd, sf, df
    pub rho: [f64; 6],
    pub fit: Option<[Theta; 2]>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct StockQ {
    pub s0: f64,
    pub var: CirQ,
    pub rho_xs: f64,
    pub rho_sw: f64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum VolQ {
    Flat,
    Steps(Vec<Vec<(f64, f64)>>),
    HoLee(f64, f64),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct FmmQ {
    pub dates: Vec<f64>,
    pub rates: Vec<f64>,
    pub sig: Vec<f64>,
    pub rho: Vec<Vec<f64>>,
    pub betas: Option<Vec<f64>>,
    pub vol: VolQ,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct FxFmmQ {
    pub fx0: f64,
    pub var: CirQ,
    pub dates: Vec<f64>,
    pub rates: Vec<f64>,
    pub sig_d: Vec<f64>,
    pub sig_f: Vec<f64>,
    pub rho_d: Vec<Vec<f64>>,
    pub rho_f: Vec<Vec<f64>>,
    pub xs: f64,
    pub xd: Vec<f64>,
    pub xf: Vec<f64>,
    pub sd: Vec<f64>,
    pub sf: Vec<f64>,
    pub cross: Vec<Vec<f64>>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(tag = "model")]
pub enum Spec {
    Bm { x0: f64, mu: f64, sig: f64 },
    Gbm { s0: f64, mu: f64, sig: f64 },
    Cir { p: CirQ },
    Hw { lam: f64, eta: f64, r0: f64, th: Theta, by_fn: bool },
    Hhw { q: HhwQ },
    Stock { q: HhwQ, st: StockQ },
    Sabr { a: f64, b: f64, rho: f64, nu: f64, f0: f64 },
    Td { knots: Vec<f64>, al: Vec<f64>, rho: Vec<f64>, nu: Vec<f64>, b: f64, f0: f64 },
    Fmm { q: FmmQ },
    FxFmm { q: FxFmmQ },
}

pub enum Inst {
    Bm(BrownianMotion),
    Gbm(GeometricBrownianMotion),
    Cir(CirSimulator),
    Hw(HullWhiteSimulator),
    Hhw(FxHhwSimulator),
    Stock(FxHhwStockSimulator),
    Sabr(SabrSimulator),
    Td(TimeDependentSabrSimulator),
    Fmm(FmmSimulator),
    FxFmm(FxFmmSimulator),
}

fn hw(l: f64, e: f64) -> HullWhite1F {
    HullWhite1F { mean_reversion: l, sigma: e }
}

impl HhwQ {
    pub fn lib(&self) -> FxHhwParams {
        let r = self.rho;
        FxHhwParams {
            fx_0: self.fx0,
            heston: self.var.lib(),
            domestic: hw(self.lam[0], self.eta[0]),
            foreign: hw(self.lam[1], self.eta[1]),
            rd_0: self.r0[0],
            rf_0: self.r0[1],
            theta_d: self.theta[0],
            theta_f: self.theta[1],
            correlations: Correlation4x4 { rho_xi_sigma: r[0], rho_xi_d: r[1], rho_xi_f: r[2], rho_sigma_d: r[3], rho_sigma_f: r[4], rho_d_f: r[5] },
        }
    }
    /// θ in force at `t` when driven through the dated runner
    pub fn theta_at(&self, t: f64) -> [f64; 2] {
        match &self.fit {
            Some(f) => [f[0].at(t), f[1].at(t)],
            None => self.theta,
        }
    }
    fn corr(&self) -> Vec<Vec<f64>> {
        let r = self.rho;
        vec![vec![1.0, r[0], r[1], r[2]], vec![r[0], 1.0, r[3], r[4]], vec![r[1], r[3], 1.0, r[5]], vec![r[2], r[4], r[5], 1.0]]
    }
}
impl StockQ {
    pub fn lib(&self) -> ForeignStock {
        ForeignStock { s_0: self.s0, variance: self.var.lib(), rho_xi_sf: self.rho_xs, rho_sf_omega: self.rho_sw }
    }
}
impl FmmQ {
    pub fn m(&self) -> usize {
        self.rates.len()
    }
    pub fn tau(&self, j: usize) -> f64 {
        self.dates[j] - self.dates[j - 1]
    }
    pub fn lib(&self) -> Fmm {
        let mut f = Fmm::new(FmmTenor::new(self.dates.clone(), self.rates.clone()), self.sig.clone(), self.rho.clone(), LinearDecay);
        if let Some(b) = &self.betas {
            f = f.with_betas(b.clone());
        }
        match &self.vol {
            VolQ::Flat => {}
            VolQ::Steps(s) => f = f.with_vol_schedule(VolSchedule::PiecewiseConstant(s.clone())),
            VolQ::HoLee(v, a) => f = f.with_vol_schedule(VolSchedule::HoLeeEquivalent { vol: *v, mean_reversion: *a }),
        }
        f
    }
    /// σ_j(t) L_j(r)
    pub fn vol(&self, j: usize, t: f64, r: f64) -> f64 {
        let s = match &self.vol {
            VolQ::Flat => self.sig[j - 1],
            VolQ::Steps(s) => {
                let k = &s[j - 1];
                k.iter().rev().find(|x| x.0 <= t).unwrap_or(&k[0]).1
            }
            VolQ::HoLee(v, a) => {
                let (lo, hi) = (self.dates[j - 1], self.dates[j]);
                if t >= hi {
                    0.0
                } else if a.abs() < 1e-12 {
                    v * (hi - lo)
                } else {
                    v * ((-a * (lo - t)).exp() - (-a * (hi - t)).exp()) / a
                }
            }
        };
        let l = match &self.betas {
            None => 1.0,
            Some(b) => b[j - 1] * r + (1.0 - b[j - 1]) * self.rates[j - 1],
        };
        s * l
    }
    pub fn gamma(&self, j: usize, t: f64) -> f64 {
        ((self.dates[j] - t) / self.tau(j)).clamp(0.0, 1.0)
    }
    /// the period [T_{k-1}, T_k) a time has entered (0: none yet, M+1: past the end)
    pub fn period(&self, t: f64) -> usize {
        self.dates.iter().filter(|d| **d <= t).count()
    }
    /// first rate not yet fixed at t
    pub fn eta(&self, t: f64) -> usize {
        (1..=self.m()).find(|j| self.dates[*j] >= t).unwrap_or(self.m() + 1)
    }
}
impl FxFmmQ {
    pub fn side(&self, foreign: bool) -> FmmQ {
        FmmQ {
            dates: self.dates.clone(),
            rates: self.rates.clone(),
            sig: if foreign { self.sig_f.clone() } else { self.sig_d.clone() },
            rho: if foreign { self.rho_f.clone() } else { self.rho_d.clone() },
            betas: None,
            vol: VolQ::Flat,
        }
    }
    pub fn lib(&self) -> FxFmmParams {
        let side = |s: &Vec<f64>, r: &Vec<Vec<f64>>| FmmSide { sigmas: s.clone(), lambda: 1.0, eta: 0.1, v_0: 1.0, rate_corr: r.clone(), decay: LinearDecay };
        FxFmmParams {
            fx_0: self.fx0,
            heston: self.var.lib(),
            tenor: FmmTenor::new(self.dates.clone(), self.rates.clone()),
            domestic: side(&self.sig_d, &self.rho_d),
            foreign: side(&self.sig_f, &self.rho_f),
            correlations: FxFmmCorrelations {
                rho_xi_sigma: self.xs,
                rho_xi_d: self.xd.clone(),
                rho_xi_f: self.xf.clone(),
                rho_sigma_d: self.sd.clone(),
                rho_sigma_f: self.sf.clone(),
                cross_rate_corr: self.cross.clone(),
            },
        }
    }
    /// (ξ, σ, R_d.., R_f..), the cross block symmetrised as documented
    fn corr(&self) -> Vec<Vec<f64>> {
        let m = self.rates.len();
        let n = 2 + 2 * m;
        let mut c = vec![vec![0.0; n]; n];
        for i in 0..n {
            c[i][i] = 1.0;
        }
        let mut set = |i: usize, j: usize, v: f64| {
            c[i][j] = v;
            c[j][i] = v;
        };
        set(0, 1, self.xs);
        for j in 0..m {
            set(0, 2 + j, self.xd[j]);
            set(0, 2 + m + j, self.xf[j]);
            set(1, 2 + j, self.sd[j]);
            set(1, 2 + m + j, self.sf[j]);
            for i in 0..m {
                if i != j {
                    set(2 + i, 2 + j, self.rho_d[i][j]);
                    set(2 + m + i, 2 + m + j, self.rho_f[i][j]);
                }
                set(2 + i, 2 + m + j, 0.5 * (self.cross[i][j] + self.cross[j][i]));
            }
        }
        c
    }
}

// ------------------------------------------------------------------ states as vectors

fn hhw_vec(s: &FxHhwState) -> Vec<f64> {
    vec![s.fx, s.variance, s.rd, s.rf]
}
fn hhw_st(v: &[f64]) -> FxHhwState {
    FxHhwState { fx: v[0], variance: v[1], rd: v[2], rf: v[3] }
}
fn stock_vec(s: &FxHhwStockState) -> Vec<f64> {
    vec![s.fx.fx, s.fx.variance, s.fx.rd, s.fx.rf, s.stock, s.stock_variance]
}
fn stock_st(v: &[f64]) -> FxHhwStockState {
    FxHhwStockState { fx: hhw_st(v), stock: v[4], stock_variance: v[5] }
}
fn sabr_vec(s: &SabrState) -> Vec<f64> {
    vec![s.forward, s.vol]
}
fn sabr_st(v: &[f64]) -> SabrState {
    SabrState { forward: v[0], vol: v[1] }
}
pub fn fmm_vec(p: &FmmPath) -> Vec<f64> {
    [&p.rates[..], &p.y_diag, &p.rates_at_start, &p.y_at_start, &[p.x_active, p.t]].concat()
}
pub fn fmm_st(v: &[f64]) -> FmmPath {
    let m = (v.len() - 2) / 4;
    let c = |k: usize| v[k * m..(k + 1) * m].to_vec();
    FmmPath { rates: c(0), y_diag: c(1), rates_at_start: c(2), y_at_start: c(3), x_active: v[4 * m], t: v[4 * m + 1] }
}
fn fxfmm_vec(s: &FxFmmState) -> Vec<f64> {
    [
        &[s.fx, s.variance][..],
        &s.rates_d,
        &s.rates_f,
        &s.y_diag_d,
        &s.y_diag_f,
        &s.rates_at_start_d,
        &s.rates_at_start_f,
        &s.y_at_start_d,
        &s.y_at_start_f,
        &[s.x_active_d, s.x_active_f, s.t],
    ]
    .concat()
}
pub fn fxfmm_st(v: &[f64]) -> FxFmmState {
    let m = (v.len() - 5) / 8;
    let c = |k: usize| v[2 + k * m..2 + (k + 1) * m].to_vec();
    let e = 2 + 8 * m;
    FxFmmState {
        fx: v[0],
        variance: v[1],
        rates_d: c(0),
        rates_f: c(1),
        y_diag_d: c(2),
        y_diag_f: c(3),
        rates_at_start_d: c(4),
        rates_at_start_f: c(5),
        y_at_start_d: c(6),
        y_at_start_f: c(7),
        x_active_d: v[e],
        x_active_f: v[e + 1],
        t: v[e + 2],
    }
}
/// one currency side of an FX-FMM state as an FMM path
pub fn side_path(v: &[f64], foreign: bool) -> FmmPath {
    let s = fxfmm_st(v);
    if foreign {
        FmmPath { rates: s.rates_f, y_diag: s.y_diag_f, rates_at_start: s.rates_at_start_f, y_at_start: s.y_at_start_f, x_active: s.x_active_f, t: s.t }
    } else {
        FmmPath { rates: s.rates_d, y_diag: s.y_diag_d, rates_at_start: s.rates_at_start_d, y_at_start: s.y_at_start_d, x_active: s.x_active_d, t: s.t }
    }
}

impl Spec {
    pub fn name(&self) -> &'static str {
        match self {
            Spec::Bm { .. } => "BrownianMotion",
            Spec::Gbm { .. } => "GeometricBrownianMotion",
            Spec::Cir { .. } => "CirSimulator",
            Spec::Hw { .. } => "HullWhiteSimulator",
            Spec::Hhw { .. } => "FxHhwSimulator",
            Spec::Stock { .. } => "FxHhwStockSimulator",
            Spec::Sabr { .. } => "SabrSimulator",
            Spec::Td { .. } => "TimeDependentSabrSimulator",
            Spec::Fmm { .. } => "FmmSimulator",
            Spec::FxFmm { .. } => "FxFmmSimulator",
        }
    }
    pub fn build(&self, seed: u64) -> Result<Inst, Violation> {
        let e = |m: &str| Violation { class: "construction".into(), msg: format!("{self:?}: {m}") };
        no_panic(&format!("building {}", self.name()), || {
            Ok(match self {
                Spec::Bm { x0, mu, sig } => Inst::Bm(BrownianMotion::new(seed).with_initial(*x0).with_drift(*mu).with_volatility(*sig)),
                Spec::Gbm { s0, mu, sig } => Inst::Gbm(GeometricBrownianMotion::new(*s0, *mu, *sig, seed)),
                Spec::Cir { p } => Inst::Cir(CirSimulator::new(p.lib(), seed)),
                Spec::Hw { lam, eta, r0, th, by_fn } => {
                    let th = *th;
                    let s = HullWhiteSimulator::new_constant_theta(hw(*lam, *eta), *r0, th.a, seed);
                    Inst::Hw(if *by_fn { s.with_theta_fn(move |t| th.at(t)) } else { s })
                }
                Spec::Hhw { q } => {
                    let s = FxHhwSimulator::new(q.lib(), seed)?;
                    Inst::Hhw(match q.fit {
                        Some(f) => s.with_theta_fn(move |t| (f[0].at(t), f[1].at(t))),
                        None => s,
                    })
                }
                Spec::Stock { q, st } => Inst::Stock(FxHhwStockSimulator::new(q.lib(), st.lib(), seed)?),
                Spec::Sabr { a, b, rho, nu, f0 } => Inst::Sabr(SabrSimulator::new(SabrParams::new(*a, *b, *rho, *nu), *f0, seed)),
                Spec::Td { .. } => Inst::Td(TimeDependentSabrSimulator::new(self.td_params(), seed)),
                Spec::Fmm { q } => Inst::Fmm(FmmSimulator::new(q.lib(), seed)?),
                Spec::FxFmm { q } => Inst::FxFmm(FxFmmSimulator::new(q.lib(), seed)?),
            })
        })?
        .map_err(e)
    }
    pub fn td_params(&self) -> TimeDependentSabrParams {
        let Spec::Td { knots, al, rho, nu, b, f0 } = self else { unreachable!() };
        let p = |v: &Vec<f64>| PiecewiseConstant::new(knots.clone(), v.clone());
        TimeDependentSabrParams::new(p(al), p(rho), p(nu), *b, *f0)
    }
    /// end of the time span the parameters cover
    pub fn horizon(&self) -> f64 {
        match self {
            Spec::Td { knots, .. } => *knots.last().unwrap(),
            Spec::Fmm { q } => *q.dates.last().unwrap(),
            Spec::FxFmm { q } => *q.dates.last().unwrap(),
            _ => 1e9,
        }
    }
    /// times at which the dynamics change
    pub fn breaks(&self) -> Vec<f64> {
        match self {
            Spec::Td { knots, .. } => knots.clone(),
            Spec::Fmm { q } => {
                let mut d = q.dates.clone();
                if let VolQ::Steps(s) = &q.vol {
                    d.extend(s.iter().flatten().map(|x| x.0));
                }
                d.sort_by(f64::total_cmp);
                d.dedup();
                d
            }
            Spec::FxFmm { q } => q.dates.clone(),
            _ => vec![],
        }
    }
    /// is the state inside the region where the model is meant (no accrual factor near zero)?
    pub fn sane(&self, s: &[f64]) -> bool {
        let ok = |d: &[f64], r: &[f64]| r.iter().enumerate().all(|(j, x)| 1.0 + (d[j + 1] - d[j]) * x > 0.25 && x.abs() < 5.0);
        s.iter().all(|x| x.is_finite() && x.abs() < 1e12)
            && match self {
                Spec::Fmm { q } => ok(&q.dates, &s[..q.m()]),
                Spec::FxFmm { q } => {
                    let m = q.rates.len();
                    ok(&q.dates, &s[2..2 + m]) && ok(&q.dates, &s[2 + m..2 + 2 * m])
                }
                _ => true,
            }
    }
    /// another admissible state, `z` away from `s`: rates move freely (negative ones included),
    /// prices and volatilities by a factor, variances and SABR forwards down to zero
    pub fn poke(&self, s: &[f64], z: &[f64]) -> Vec<f64> {
        let mut v = s.to_vec();
        let z = |i: usize| z.get(i % z.len().max(1)).copied().unwrap_or(0.0);
        let rate = |v: &mut f64, z: f64, by: f64| *v += by * z;
        let pos = |v: &mut f64, z: f64| *v *= (2.0 * z).exp();
        let nonneg = |v: &mut f64, z: f64| *v = if z < -1.2 { 0.0 } else { (*v + 1e-3 * z.abs()) * (2.0 * z).exp() };
        match self {
            Spec::Bm { .. } => rate(&mut v[0], z(0), 5.0),
            Spec::Gbm { .. } => pos(&mut v[0], z(0)),
            Spec::Cir { .. } => nonneg(&mut v[0], z(0)),
            Spec::Hw { .. } => rate(&mut v[0], z(0), 0.3),
            Spec::Hhw { .. } | Spec::Stock { .. } => {
                pos(&mut v[0], z(0));
                nonneg(&mut v[1], z(1));
                rate(&mut v[2], z(2), 0.3);
                rate(&mut v[3], z(3), 0.3);
                if v.len() > 4 {
                    pos(&mut v[4], z(4));
                    nonneg(&mut v[5], z(5));
                }
            }
            Spec::Sabr { .. } | Spec::Td { .. } => {
                nonneg(&mut v[0], z(0));
                pos(&mut v[1], z(1));
            }
            Spec::Fmm { q } => (0..q.m()).for_each(|j| rate(&mut v[j], z(j), 0.05)),
            Spec::FxFmm { q } => {
                pos(&mut v[0], z(0));
                nonneg(&mut v[1], z(1));
                (0..2 * q.rates.len()).for_each(|j| rate(&mut v[2 + j], z(2 + j), 0.05));
            }
        }
        v
    }
    pub fn initial(&self) -> Vec<f64> {
        match self {
            Spec::Bm { x0, .. } => vec![*x0],
            Spec::Gbm { s0, .. } => vec![*s0],
            Spec::Cir { p } => vec![p.v0],
            Spec::Hw { r0, .. } => vec![*r0],
            Spec::Hhw { q } => vec![q.fx0, q.var.v0, q.r0[0], q.r0[1]],
            Spec::Stock { q, st } => vec![q.fx0, q.var.v0, q.r0[0], q.r0[1], st.s0, st.var.v0],
            Spec::Sabr { a, f0, .. } => vec![*f0, *a],
            Spec::Td { al, f0, .. } => vec![*f0, al[0]],
            Spec::Fmm { q } => {
                let m = q.m();
                let mut v = vec![0.0; 4 * m + 2];
                v[..m].copy_from_slice(&q.rates);
                v[2 * m] = q.rates[0];
                v
            }
            Spec::FxFmm { q } => {
                let m = q.rates.len();
                let mut v = vec![0.0; 5 + 8 * m];
                v[0] = q.fx0;
                v[1] = q.var.v0;
                v[2..2 + m].copy_from_slice(&q.rates);
                v[2 + m..2 + 2 * m].copy_from_slice(&q.rates);
                v[2 + 4 * m] = q.rates[0];
                v[2 + 5 * m] = q.rates[0];
                v
            }
        }
    }
}

fn dated<M: SimulationModel>(m: &mut M, f: fn(&M::State) -> Vec<f64>, val: NaiveDate, obs: &[NaiveDate], n: usize, cap: u32, dc: &dyn DayCounters) -> Vec<Vec<Vec<f64>>> {
    simulate_at_dates(m, val, obs, n, cap, dc).paths.iter().map(|p| p.iter().map(f).collect()).collect()
}

fn one(x: &f64) -> Vec<f64> {
    vec![*x]
}

impl Inst {
    pub fn initial(&self) -> Vec<f64> {
        match self {
            Inst::Bm(x) => vec![x.initial_state()],
            Inst::Gbm(x) => vec![x.initial_state()],
            Inst::Cir(x) => vec![x.initial_state()],
            Inst::Hw(x) => vec![x.initial_state()],
            Inst::Hhw(x) => hhw_vec(&x.initial_state()),
            Inst::Stock(x) => stock_vec(&x.initial_state()),
            Inst::Sabr(x) => sabr_vec(&x.initial_state()),
            Inst::Td(x) => sabr_vec(&x.initial_state()),
            Inst::Fmm(x) => fmm_vec(&x.initial_state()),
            Inst::FxFmm(x) => fxfmm_vec(&x.initial_state()),
        }
    }
    /// one step through the date-driven contract: `t` is the step's midpoint
    pub fn step(&mut self, s: &[f64], t: f64, dt: f64) -> Vec<f64> {
        match self {
            Inst::Bm(x) => vec![x.step(&s[0], t, dt)],
            Inst::Gbm(x) => vec![x.step(&s[0], t, dt)],
            Inst::Cir(x) => vec![x.step(&s[0], t, dt)],
            Inst::Hw(x) => vec![x.step(&s[0], t, dt)],
            Inst::Hhw(x) => hhw_vec(&SimulationModel::step(x, &hhw_st(s), t, dt)),
            Inst::Stock(x) => stock_vec(&SimulationModel::step(x, &stock_st(s), t, dt)),
            Inst::Sabr(x) => sabr_vec(&x.step(&sabr_st(s), t, dt)),
            Inst::Td(x) => sabr_vec(&x.step(&sabr_st(s), t, dt)),
            Inst::Fmm(x) => fmm_vec(&SimulationModel::step(x, &fmm_st(s), t, dt)),
            Inst::FxFmm(x) => fxfmm_vec(&SimulationModel::step(x, &fxfmm_st(s), t, dt)),
        }
    }
    /// the simulator's own one-step method, where it has one besides the trait's
    pub fn own_step(&mut self, s: &[f64], t: f64, dt: f64) -> (Vec<f64>, Vec<f64>) {
        match self {
            Inst::Hhw(x) => {
                let (a, b) = FxHhwSimulator::step(x, &hhw_st(s), dt);
                (hhw_vec(&a), b.to_vec())
            }
            Inst::Stock(x) => (stock_vec(&FxHhwStockSimulator::step(x, &stock_st(s), dt)), vec![]),
            Inst::Sabr(x) => {
                let (a, b) = x.step_with_noise(&sabr_st(s), dt);
                (sabr_vec(&a), b.to_vec())
            }
            Inst::Td(x) => {
                let (a, b) = x.step_with_noise(&sabr_st(s), t, dt);
                (sabr_vec(&a), b.to_vec())
            }
            Inst::Fmm(x) => {
                let mut p = fmm_st(s);
                x.step(&mut p, dt);
                (fmm_vec(&p), vec![])
            }
            Inst::FxFmm(x) => {
                let mut p = fxfmm_st(s);
                x.step(&mut p, dt);
                (fxfmm_vec(&p), vec![])
            }
            _ => (self.step(s, t, dt), vec![]),
        }
    }
    /// the simulator's own batch method (terminal states on a uniform grid)
    pub fn batch(&mut self, t_end: f64, n_steps: usize, n_paths: usize) -> Option<Vec<Vec<f64>>> {
        Some(match self {
            Inst::Hhw(x) => x.simulate(t_end, n_steps, n_paths).iter().map(hhw_vec).collect(),
            Inst::Stock(x) => x.simulate(t_end, n_steps, n_paths).iter().map(stock_vec).collect(),
            Inst::Sabr(x) => x.simulate(t_end, n_steps, n_paths).iter().map(sabr_vec).collect(),
            Inst::Td(x) => x.simulate(t_end, n_steps, n_paths).iter().map(sabr_vec).collect(),
            Inst::Fmm(x) => x.simulate_terminal(t_end, n_steps, n_paths).iter().map(fmm_vec).collect(),
            Inst::FxFmm(x) => x.simulate_terminal(t_end, n_steps, n_paths).iter().map(fxfmm_vec).collect(),
            _ => return None,
        })
    }
    /// the same batch written as single steps
    pub fn batch_by_steps(&mut self, t_end: f64, n_steps: usize, n_paths: usize) -> Vec<Vec<f64>> {
        let dt = t_end / n_steps as f64;
        (0..n_paths)
            .map(|_| {
                let mut s = self.initial();
                for i in 0..n_steps {
                    s = self.own_step(&s, (i as f64 + 0.5) * dt, dt).0;
                }
                s
            })
            .collect()
    }
    pub fn dated(&mut self, val: NaiveDate, obs: &[NaiveDate], n: usize, cap: u32, dc: &dyn DayCounters) -> Vec<Vec<Vec<f64>>> {
        match self {
            Inst::Bm(x) => dated(x, one, val, obs, n, cap, dc),
            Inst::Gbm(x) => dated(x, one, val, obs, n, cap, dc),
            Inst::Cir(x) => dated(x, one, val, obs, n, cap, dc),
            Inst::Hw(x) => dated(x, one, val, obs, n, cap, dc),
            Inst::Hhw(x) => dated(x, hhw_vec, val, obs, n, cap, dc),
            Inst::Stock(x) => dated(x, stock_vec, val, obs, n, cap, dc),
            Inst::Sabr(x) => dated(x, sabr_vec, val, obs, n, cap, dc),
            Inst::Td(x) => dated(x, sabr_vec, val, obs, n, cap, dc),
            Inst::Fmm(x) => dated(x, fmm_vec, val, obs, n, cap, dc),
            Inst::FxFmm(x) => dated(x, fxfmm_vec, val, obs, n, cap, dc),
        }
    }
    /// the dated run written as single steps
    pub fn dated_by_steps(&mut self, val: NaiveDate, obs: &[NaiveDate], n: usize, cap: u32, dc: &dyn DayCounters) -> Vec<Vec<Vec<f64>>> {
        let mut obs = obs.to_vec();
        obs.sort();
        let last = *obs.last().unwrap();
        let mut grid: Vec<NaiveDate> = (0..).map(|k| add(val, k * cap as i64)).take_while(|x| *x < last).collect();
        grid.extend(&obs);
        grid.sort();
        grid.dedup();
        let yf: Vec<f64> = grid.iter().map(|x| dc.year_fraction(val, *x).unwrap()).collect();
        (0..n)
            .map(|_| {
                let mut s = self.initial();
                let mut out = vec![];
                for i in 0..grid.len() {
                    if i > 0 && yf[i] > yf[i - 1] {
                        s = self.step(&s, 0.5 * (yf[i] + yf[i - 1]), yf[i] - yf[i - 1]);
                    }
                    for _ in obs.iter().filter(|o| **o == grid[i]) {
                        out.push(s.clone());
                    }
                }
                out
            })
            .collect()
    }
}

// ------------------------------------------------------------------ generators

/// lower Cholesky factor, None below the given pivot
pub fn chol(c: &[Vec<f64>], min: f64) -> Option<Vec<Vec<f64>>> {
    let n = c.len();
    let mut l = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..=i {
            let s = c[i][j] - (0..j).map(|k| l[i][k] * l[j][k]).sum::<f64>();
            if i == j {
                if s < min {
                    return None;
                }
                l[i][i] = s.sqrt();
            } else {
                l[i][j] = s / l[j][j];
            }
        }
    }
    Some(l)
}

/// random correlation matrix with three decimals
pub fn gen_corr(r: &mut Prng, n: usize) -> Vec<Vec<f64>> {
    loop {
        let shrink = *r.pick(&[0.95, 0.8, 0.5]);
        let k = r.usize(1, n.min(4));
        let rows: Vec<Vec<f64>> = (0..n)
            .map(|_| {
                let v: Vec<f64> = (0..k).map(|_| r.normal()).collect();
                let s = v.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-6);
                v.iter().map(|x| x / s).collect()
            })
            .collect();
        let mut c = vec![vec![1.0; n]; n];
        for i in 0..n {
            for j in 0..i {
                let d: f64 = rows[i].iter().zip(&rows[j]).map(|(a, b)| a * b).sum();
                let v = (d * shrink * 1000.0).round() / 1000.0;
                c[i][j] = v;
                c[j][i] = v;
            }
        }
        if r.chance(0.1) {
            for i in 0..n {
                for j in 0..n {
                    if i != j {
                        c[i][j] = 0.0;
                    }
                }
            }
        }
        if chol(&c, 0.01).is_some() {
            return c;
        }
    }
}

fn gen_theta(r: &mut Prng) -> Theta {
    Theta { a: r.dec(-0.02, 0.08, 4), b: r.dec(-0.02, 0.02, 4), c: if r.chance(0.5) { r.dec(-0.05, 0.05, 4) } else { 0.0 } }
}

fn gen_cir(r: &mut Prng, lo: f64, hi: f64) -> CirQ {
    let mut q = CirQ { kappa: r.dec(0.1, 4.0, 2), theta: r.dec(lo, hi, 4), gamma: r.dec(0.05, 0.9, 3), v0: r.dec(lo, hi, 4) };
    // the ends of the parameter range
    match r.below(40) {
        0 => q.v0 = 0.0,
        1 => q.theta = 0.0,
        2 => q.gamma = 0.0,
        3 => q.kappa = 0.001,
        4 => q.kappa = 15.0,
        5 => q.v0 = hi * 10.0,
        _ => {}
    }
    q
}

fn gen_hhw(r: &mut Prng) -> HhwQ {
    let c = gen_corr(r, 4);
    let eta = if r.chance(0.2) { 0.3 } else { 0.02 };
    HhwQ {
        fx0: *r.pick(&[1.0, 1.35, 0.72, 145.5]),
        var: gen_cir(r, 0.005, 0.1),
        lam: [0, 1].map(|_| if r.chance(0.06) { *r.pick(&[0.0, 1e-8, 3.0]) } else { r.dec(0.005, 0.5, 3) }),
        eta: [0, 1].map(|_| if r.chance(0.06) { 0.0 } else { r.dec(0.002, eta, 4) }),
        r0: [r.dec(-0.01, 0.06, 4), r.dec(-0.01, 0.06, 4)],
        theta: [r.dec(-0.01, 0.06, 4), r.dec(-0.01, 0.06, 4)],
        rho: [c[0][1], c[0][2], c[0][3], c[1][2], c[1][3], c[2][3]],
        fit: if r.chance(0.5) {
            Some([gen_theta(r), gen_theta(r)])
        } else {
            None
        },
    }
}

/// nearest multiple of 1/64: sums of such times are exact, so steps can end on a date exactly
pub fn dyadic(x: f64) -> f64 {
    (x * 64.0).round().max(1.0) / 64.0
}

fn gen_dates(r: &mut Prng, m: usize) -> Vec<f64> {
    let mut t = if r.chance(0.15) { dyadic(r.dec(0.05, 0.5, 2)) } else { 0.0 };
    let even = r.chance(0.5);
    let w = *r.pick(&[0.25, 0.5, 1.0]);
    (0..=m)
        .map(|_| {
            let x = t;
            t += if even { w } else { dyadic(r.dec(0.1, 1.5, 2)) };
            x
        })
        .collect()
}

fn gen_fmm(r: &mut Prng) -> FmmQ {
    let m = if r.chance(0.06) { r.usize(6, 9) } else { r.usize(1, 5) };
    let dates = gen_dates(r, m);
    let big = r.chance(0.3);
    let vol = match r.below(4) {
        0 => VolQ::Steps(
            (0..m)
                .map(|_| {
                    let mut t = if r.chance(0.8) { 0.0 } else { 0.125 };
                    (0..r.usize(1, 4))
                        .map(|_| {
                            let x = (t, r.dec(0.001, 0.02, 4));
                            t += dyadic(r.dec(0.1, 1.0, 2));
                            x
                        })
                        .collect()
                })
                .collect(),
        ),
        1 => VolQ::HoLee(r.dec(0.002, 0.02, 4), if r.chance(0.3) { 0.0 } else { r.dec(-0.05, 0.3, 3) }),
        _ => VolQ::Flat,
    };
    let betas = if r.chance(0.35) { Some((0..m).map(|_| *r.pick(&[0.0, 0.25, 0.5, 1.0])).collect()) } else { None };
    let hi = if betas.is_some() { 0.5 } else if big { 0.15 } else { 0.015 };
    FmmQ { rates: (0..m).map(|_| r.dec(-0.005, 0.06, 4)).collect(), sig: (0..m).map(|_| r.dec(0.0, hi, 4)).collect(), rho: gen_corr(r, m), betas, vol, dates }
}

fn gen_fxfmm(r: &mut Prng) -> FxFmmQ {
    let m = if r.chance(0.05) { 5 } else { r.usize(1, 4) };
    loop {
        let c = gen_corr(r, 2 + 2 * m);
        let blk = |a: usize, b: usize| (0..m).map(|i| (0..m).map(|j| c[2 + a * m + i][2 + b * m + j]).collect()).collect::<Vec<Vec<f64>>>();
        let hi = if r.chance(0.3) { 0.1 } else { 0.015 };
        let q = FxFmmQ {
            fx0: *r.pick(&[1.1, 0.8, 151.25]),
            var: gen_cir(r, 0.005, 0.1),
            dates: gen_dates(r, m),
            rates: (0..m).map(|_| r.dec(-0.005, 0.06, 4)).collect(),
            sig_d: (0..m).map(|_| r.dec(0.0, hi, 4)).collect(),
            sig_f: (0..m).map(|_| r.dec(0.0, hi, 4)).collect(),
            rho_d: blk(0, 0),
            rho_f: blk(1, 1),
            xs: c[0][1],
            xd: (0..m).map(|j| c[0][2 + j]).collect(),
            xf: (0..m).map(|j| c[0][2 + m + j]).collect(),
            sd: (0..m).map(|j| c[1][2 + j]).collect(),
            sf: (0..m).map(|j| c[1][2 + m + j]).collect(),
            cross: blk(0, 1),
        };
        if chol(&q.corr(), 0.01).is_some() {
            return q;
        }
    }
}

fn zero_or(r: &mut Prng, lo: f64, hi: f64) -> f64 {
    if r.chance(0.07) { 0.0 } else { r.dec(lo, hi, 3) }
}
fn gen_rho(r: &mut Prng) -> f64 {
    if r.chance(0.1) { *r.pick(&[0.0, 0.0, 0.999, -0.999]) } else { r.dec(-0.95, 0.95, 2) }
}

pub const KINDS: usize = 10;
pub fn gen_spec(r: &mut Prng, kind: usize) -> Spec {
    match kind {
        0 => Spec::Bm { x0: r.dec(-2.0, 2.0, 3), mu: zero_or(r, -1.0, 1.0), sig: zero_or(r, 0.0, 2.0) },
        1 => Spec::Gbm { s0: *r.pick(&[0.01, 1.0, 100.0]), mu: zero_or(r, -0.3, 0.3), sig: zero_or(r, 0.0, 0.8) },
        2 => Spec::Cir { p: gen_cir(r, 0.001, 0.5) },
        3 => Spec::Hw {
            lam: if r.chance(0.1) { *r.pick(&[0.0, 1e-8, 4.0]) } else { r.dec(0.0, 1.0, 3) },
            eta: if r.chance(0.05) { 0.0 } else { r.dec(0.0, 0.03, 4) },
            r0: r.dec(-0.02, 0.08, 4),
            th: gen_theta(r),
            by_fn: r.chance(0.6),
        },
        4 => Spec::Hhw { q: gen_hhw(r) },
        5 => {
            let q = gen_hhw(r);
            Spec::Stock { q, st: StockQ { s0: *r.pick(&[1.0, 50.0, 3000.0]), var: gen_cir(r, 0.005, 0.2), rho_xs: r.dec(-0.98, 0.98, 2), rho_sw: r.dec(-0.98, 0.98, 2) } }
        }
        6 => Spec::Sabr {
            a: r.dec(0.02, 0.6, 3),
            b: *r.pick(&[0.0, 0.3, 0.5, 0.7, 0.99, 1.0]),
            rho: gen_rho(r),
            nu: if r.chance(0.1) { 0.0 } else { r.dec(0.05, 1.5, 3) },
            f0: *r.pick(&[0.02, 0.8, 1.3, 140.0]),
        },
        7 => {
            let n = r.usize(1, 5);
            let mut t = 0.0;
            let mut knots = vec![0.0];
            for _ in 0..n {
                t += dyadic(r.dec(0.1, 1.5, 2));
                knots.push(t);
            }
            // now and then a level that comes back, or a flat stretch
            // or nothing but flat ones, exactly or nearly
            let flat = n > 1 && r.chance(0.2);
            let tilt = if r.chance(0.5) { 0.0 } else { *r.pick(&[1e-10, 1e-7, 1e-5, 1e-4, 1e-3, 0.01]) };
            let tilted = r.usize(0, 2);
            let mut nth = 0;
            let mut seq = |r: &mut Prng, f: &mut dyn FnMut(&mut Prng) -> f64| {
                nth += 1;
                if flat {
                    let mut v = vec![f(r); n];
                    if nth == tilted + 1 {
                        let k = r.usize(0, n - 1);
                        v[k] += if v[k] > 0.0 { -tilt } else { tilt };
                    }
                    return v;
                }
                let few = if r.chance(0.4) { Some([f(r), f(r)]) } else { None };
                let mut v: Vec<f64> = (0..n).map(|_| if let Some(x) = few { x[r.usize(0, 1)] } else { f(r) }).collect();
                if n > 2 && r.chance(0.3) {
                    v[n - 1] = v[0];
                }
                v
            };
            Spec::Td {
                al: seq(r, &mut |r| r.dec(0.03, 0.5, 3)),
                rho: seq(r, &mut gen_rho),
                nu: seq(r, &mut |r| if r.chance(0.1) { 0.0 } else { r.dec(0.05, 1.2, 3) }),
                b: *r.pick(&[0.0, 0.3, 0.5, 0.7, 1.0]),
                f0: *r.pick(&[0.02, 0.8, 1.3, 140.0]),
                knots,
            }
        }
        8 => Spec::Fmm { q: gen_fmm(r) },
        _ => Spec::FxFmm { q: gen_fxfmm(r) },
    }
}

// ------------------------------------------------------------------ stated dynamics

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Co {
    /// Gaussian in the shocks
    Lin,
    /// log-Gaussian
    Log,
    /// Gaussian, truncated at zero
    Trunc,
}

/// One step as stated: every coordinate (after its transform) is `a` plus a centred Gaussian
/// with covariance `c` over all coordinates.
pub struct Stated {
    pub kind: Vec<Co>,
    pub a: Vec<f64>,
    pub c: Vec<Vec<f64>>,
    /// loading on each correlated Brownian increment
    pub load: Vec<Vec<(usize, f64)>>,
}

struct Build {
    kind: Vec<Co>,
    a: Vec<f64>,
    /// loading on each correlated Brownian increment
    load: Vec<Vec<(usize, f64)>>,
}
impl Build {
    fn new() -> Self {
        Build { kind: vec![], a: vec![], load: vec![] }
    }
    fn put(&mut self, kind: Co, a: f64, load: &[(usize, f64)]) {
        self.kind.push(kind);
        self.a.push(a);
        self.load.push(load.to_vec());
    }
    fn done(self, rho: &[Vec<f64>], dt: f64) -> Stated {
        let n = self.a.len();
        let mut c = vec![vec![0.0; n]; n];
        for i in 0..n {
            for j in 0..n {
                c[i][j] = dt * self.load[i].iter().map(|(p, x)| self.load[j].iter().map(|(q, y)| x * y * rho[*p][*q]).sum::<f64>()).sum::<f64>();
            }
        }
        Stated { kind: self.kind, a: self.a, c, load: self.load }
    }
}

fn hhw_block(b: &mut Build, q: &HhwQ, s: &[f64], th: [f64; 2], dt: f64) {
    let v = s[1].max(0.0);
    let sv = v.sqrt();
    b.put(Co::Log, s[0].ln() + (s[2] - s[3] - 0.5 * v) * dt, &[(0, sv)]);
    b.put(Co::Trunc, v + q.var.kappa * (q.var.theta - v) * dt, &[(1, q.var.gamma * sv)]);
    b.put(Co::Lin, s[2] + q.lam[0] * (th[0] - s[2]) * dt, &[(2, q.eta[0])]);
    b.put(Co::Lin, s[3] + (q.lam[1] * (th[1] - s[3]) - q.eta[1] * q.rho[2] * sv) * dt, &[(3, q.eta[1])]);
}

/// drift part, y increments and loadings of one FMM side; `first` is the index of the side's
/// first Brownian increment, `shift[j]` the drift of that increment under the pricing measure
struct SideStep {
    drift: Vec<f64>,
    load: Vec<f64>,
    y: Vec<f64>,
    rs: Vec<Option<()>>,
    x: f64,
    xload: Option<(usize, f64)>,
}
fn fmm_side(q: &FmmQ, p: &FmmPath, dt: f64, shift: &[f64]) -> SideStep {
    let (m, t) = (q.m(), p.t);
    let mid = t + 0.5 * dt;
    let vol = |j: usize| q.vol(j, mid, p.rates[j - 1]);
    let eta = q.eta(t);
    let mut o = SideStep { drift: p.rates.clone(), load: vec![0.0; m], y: p.y_diag.clone(), rs: vec![None; m], x: p.x_active, xload: None };
    for j in eta..=m {
        let g = q.gamma(j, mid);
        let sum: f64 = (eta..=j).map(|i| q.rho[i - 1][j - 1] * q.tau(i) * vol(i) * q.gamma(i, mid) / (1.0 + q.tau(i) * p.rates[i - 1])).sum();
        let sg = vol(j) * g;
        o.drift[j - 1] += sg * (sum + shift[j - 1]) * dt;
        o.load[j - 1] = sg;
    }
    for j in 1..=m {
        let part = (q.dates[j] - t).min(dt).max(0.0);
        o.y[j - 1] += (vol(j) / (p.rates[j - 1] + 1.0 / q.tau(j))).powi(2) * part;
    }
    let k = q.period(t);
    if (1..=m).contains(&k) {
        let s = vol(k) / (p.rates[k - 1] + 1.0 / q.tau(k));
        o.x += ((o.y[k - 1] - p.y_at_start[k - 1]) / q.tau(k) + s * shift[k - 1]) * dt;
        o.xload = Some((k - 1, s));
    }
    for k2 in (k + 1)..=q.period(t + dt).min(m) {
        o.rs[k2 - 1] = Some(());
        o.x = 0.0;
        o.xload = None;
    }
    o
}

impl Spec {
    /// the stated one-step dynamics from state `s` over [t - dt/2, t + dt/2]; `own` = through the
    /// simulator's own step method (constant θ) rather than the dated contract
    pub fn stated(&self, s: &[f64], t: f64, dt: f64, own: bool) -> Stated {
        let one = vec![vec![1.0]];
        let mut b = Build::new();
        match self {
            Spec::Bm { mu, sig, .. } => {
                b.put(Co::Lin, s[0] + mu * dt, &[(0, *sig)]);
                b.done(&one, dt)
            }
            Spec::Gbm { mu, sig, .. } => {
                b.put(Co::Log, s[0].ln() + (mu - 0.5 * sig * sig) * dt, &[(0, *sig)]);
                b.done(&one, dt)
            }
            Spec::Cir { p } => {
                let v = s[0].max(0.0);
                b.put(Co::Trunc, v + p.kappa * (p.theta - v) * dt, &[(0, p.gamma * v.sqrt())]);
                b.done(&one, dt)
            }
            Spec::Hw { lam, eta, th, by_fn, .. } => {
                let th = if *by_fn { th.at(t) } else { th.a };
                b.put(Co::Lin, s[0] + lam * (th - s[0]) * dt, &[(0, *eta)]);
                b.done(&one, dt)
            }
            Spec::Hhw { q } => {
                hhw_block(&mut b, q, s, if own { q.theta } else { q.theta_at(t) }, dt);
                b.done(&q.corr(), dt)
            }
            Spec::Stock { q, st } => {
                hhw_block(&mut b, q, s, q.theta, dt);
                let (v, w) = (s[1].max(0.0), s[5].max(0.0));
                let (sv, sw) = (v.sqrt(), w.sqrt());
                // W_S = ρ W_ξ + √(1-ρ²) ⊥, W_ω = ρ' W_S + √(1-ρ'²) ⊥'
                let (p, o) = (st.rho_xs, st.rho_sw);
                let (pc, oc) = ((1.0 - p * p).sqrt(), (1.0 - o * o).sqrt());
                b.put(Co::Log, s[4].ln() + (s[3] - p * sv * sw - 0.5 * w) * dt, &[(0, sw * p), (4, sw * pc)]);
                let g = st.var.gamma * sw;
                b.put(Co::Trunc, w + (st.var.kappa * (st.var.theta - w) - o * p * g * sv) * dt, &[(0, g * o * p), (4, g * o * pc), (5, g * oc)]);
                let mut rho = q.corr();
                for r in rho.iter_mut() {
                    r.extend([0.0, 0.0]);
                }
                rho.push(vec![0.0, 0.0, 0.0, 0.0, 1.0, 0.0]);
                rho.push(vec![0.0, 0.0, 0.0, 0.0, 0.0, 1.0]);
                b.done(&rho, dt)
            }
            Spec::Sabr { b: beta, rho, nu, .. } => sabr_stated(b, s, 1.0, *beta, *rho, *nu, dt),
            Spec::Td { knots, al, rho, nu, b: beta, .. } => {
                let k = (1..knots.len()).find(|k| t <= knots[*k]).unwrap_or(knots.len() - 1) - 1;
                sabr_stated(b, s, al[k] / al[0], *beta, rho[k], nu[k], dt)
            }
            Spec::Fmm { q } => {
                let p = fmm_st(s);
                let m = q.m();
                let o = fmm_side(q, &p, dt, &vec![0.0; m]);
                for j in 0..m {
                    b.put(Co::Lin, o.drift[j], &[(j, o.load[j])]);
                }
                for j in 0..m {
                    b.put(Co::Lin, o.y[j], &[]);
                }
                for j in 0..m {
                    match o.rs[j] {
                        Some(()) => b.put(Co::Lin, o.drift[j], &[(j, o.load[j])]),
                        None => b.put(Co::Lin, p.rates_at_start[j], &[]),
                    }
                }
                for j in 0..m {
                    b.put(Co::Lin, if o.rs[j].is_some() { o.y[j] } else { p.y_at_start[j] }, &[]);
                }
                b.put(Co::Lin, o.x, &o.xload.into_iter().collect::<Vec<_>>());
                b.put(Co::Lin, p.t + dt, &[]);
                b.done(&q.rho, dt)
            }
            Spec::FxFmm { q } => {
                let m = q.rates.len();
                let st = fxfmm_st(s);
                let v = s[1].max(0.0);
                let sv = v.sqrt();
                let (d, f) = (q.side(false), q.side(true));
                let k = d.eta(st.t).min(m) - 1;
                let od = fmm_side(&d, &side_path(s, false), dt, &vec![0.0; m]);
                let of = fmm_side(&f, &side_path(s, true), dt, &q.xf.iter().map(|r| -r * sv).collect::<Vec<_>>());
                b.put(Co::Log, st.fx.ln() + (st.rates_d[k] - st.rates_f[k] - 0.5 * v) * dt, &[(0, sv)]);
                b.put(Co::Trunc, v + q.var.kappa * (q.var.theta - v) * dt, &[(1, q.var.gamma * sv)]);
                for (o, off) in [(&od, 2), (&of, 2 + m)] {
                    for j in 0..m {
                        b.put(Co::Lin, o.drift[j], &[(off + j, o.load[j])]);
                    }
                }
                for o in [&od, &of] {
                    for j in 0..m {
                        b.put(Co::Lin, o.y[j], &[]);
                    }
                }
                for (o, off, old) in [(&od, 2, &st.rates_at_start_d), (&of, 2 + m, &st.rates_at_start_f)] {
                    for j in 0..m {
                        match o.rs[j] {
                            Some(()) => b.put(Co::Lin, o.drift[j], &[(off + j, o.load[j])]),
                            None => b.put(Co::Lin, old[j], &[]),
                        }
                    }
                }
                for (o, old) in [(&od, &st.y_at_start_d), (&of, &st.y_at_start_f)] {
                    for j in 0..m {
                        b.put(Co::Lin, if o.rs[j].is_some() { o.y[j] } else { old[j] }, &[]);
                    }
                }
                for (o, off) in [(&od, 2), (&of, 2 + m)] {
                    b.put(Co::Lin, o.x, &o.xload.iter().map(|(k, s)| (off + k, *s)).collect::<Vec<_>>());
                }
                b.put(Co::Lin, st.t + dt, &[]);
                b.done(&q.corr(), dt)
            }
        }
    }
}

fn sabr_stated(mut b: Build, s: &[f64], level: f64, beta: f64, rho: f64, nu: f64, dt: f64) -> Stated {
    let (f, v) = (s[0].max(0.0), s[1]);
    b.put(Co::Trunc, f, &[(0, level * v * f.powf(beta))]);
    b.put(Co::Log, v.ln() - 0.5 * nu * nu * dt, &[(1, nu)]);
    b.done(&[vec![1.0, rho], vec![rho, 1.0]], dt)
}

fn tr(k: Co, x: f64) -> f64 {
    if k == Co::Log { x.ln() } else { x }
}

/// beyond this a logarithm's exponential leaves the doubles
const LOG_EDGE: f64 = 690.0;

/// A log coordinate whose value under- or overflows on the side the scheme says.
fn edge(k: Co, want: f64, got: f64) -> bool {
    k == Co::Log && want.abs() > LOG_EDGE && got.abs() > LOG_EDGE - 1.0 && (want > 0.0) == (got > 0.0)
}

/// The experiment: with scripted draws, find the step's drift and loadings, compare them with the
/// stated ones, then check that full random shock vectors act as those loadings say.
pub fn check_step(spec: &Spec, inst: &mut Inst, s: &[f64], t: f64, dt: f64, own: bool, shocks: &[Vec<f64>], ctx: &mut Ctx) -> Outcome {
    let st = spec.stated(s, t, dt, own);
    let n = st.a.len();
    let name = spec.name();
    let here = || format!("{name} from {s:?} at {t} over {dt} (own step: {own}), parameters {}", serde_json::to_string(spec).unwrap());
    let noise = std::cell::RefCell::new(vec![]);
    let mut run = |z: &[f64]| -> Result<(Vec<f64>, u64), Violation> {
        no_panic(name, || {
            with_normals(z, || {
                if own {
                    let (f, w) = inst.own_step(s, t, dt);
                    *noise.borrow_mut() = w;
                    f
                } else {
                    inst.step(s, t, dt)
                }
            })
        })
    };
    let (f0, draws) = run(&[])?;
    ensure!(f0.len() == n, "state", "{} coordinates", f0.len());
    ensure!(draws <= 64, "draws", "{}: {draws} draws in one step", here());
    let nd = draws as usize;
    // scale of each coordinate for rounding
    let sc: Vec<f64> = (0..n).map(|i| 1e-12 * (1.0 + st.a[i].abs()) * if st.kind[i] == Co::Log { 10.0 } else { 1.0 }).collect();
    for i in 0..n {
        let want = if st.kind[i] == Co::Trunc { st.a[i].max(0.0) } else { st.a[i] };
        let got = tr(st.kind[i], f0[i]);
        if edge(st.kind[i], want, got) {
            continue;
        }
        ensure!((got - want).abs() <= sc[i] * (1.0 + s[i].abs()), "drift", "coordinate {i} moves without shock to {got:e}, stated {want:e}; {}", here());
    }
    // step size of the probing shocks: keep truncated coordinates off zero
    let mut h = 1.0f64;
    let mut probe = vec![true; n];
    for i in 0..n {
        if st.kind[i] == Co::Log && !(st.a[i].abs() + 4.0 * st.c[i][i].sqrt() < LOG_EDGE) {
            probe[i] = false;
        }
        if st.kind[i] == Co::Trunc {
            let sd = st.c[i][i].sqrt();
            if st.a[i] <= 1e-6 {
                probe[i] = false;
            } else if sd > 0.0 {
                h = h.min(0.4 * st.a[i] / sd);
            }
        }
    }
    if h < 1e-3 {
        for i in 0..n {
            if st.kind[i] == Co::Trunc && 0.4 * st.a[i] < st.c[i][i].sqrt() {
                probe[i] = false;
            }
        }
        h = 1.0;
        for i in 0..n {
            if st.kind[i] == Co::Trunc && probe[i] && st.c[i][i] > 0.0 {
                h = h.min(0.4 * st.a[i] / st.c[i][i].sqrt());
            }
        }
    }
    let mut b = vec![vec![0.0; nd]; n];
    for k in 0..nd {
        let mut z = vec![0.0; nd];
        z[k] = h;
        let (f, d) = run(&z)?;
        ensure!(d == draws, "draws", "{}: {draws} draws without shock, {d} with", here());
        for i in 0..n {
            b[i][k] = (tr(st.kind[i], f[i]) - tr(st.kind[i], f0[i])) / h;
        }
    }
    for i in 0..n {
        for j in 0..=i {
            if !probe[i] || !probe[j] {
                continue;
            }
            let got: f64 = (0..nd).map(|k| b[i][k] * b[j][k]).sum();
            let scale = (st.c[i][i] * st.c[j][j]).sqrt();
            let eps = (sc[i] * (1.0 + s[i].abs()) * st.c[j][j].sqrt() + sc[j] * (1.0 + s[j].abs()) * st.c[i][i].sqrt()) * 20.0 / h + (sc[i] * sc[j]) * 1e3 / (h * h);
            ensure!((got - st.c[i][j]).abs() <= 1e-8 * scale + eps, "covariance", "coordinates {i} and {j}: covariance {got:e}, stated {:e} (variances {:e}, {:e}); {}", st.c[i][j], st.c[i][i], st.c[j][j], here());
        }
    }
    for z in shocks {
        let z: Vec<f64> = z.iter().take(nd).copied().collect();
        let (f, _) = run(&z)?;
        let noise = noise.borrow().clone();
        if own && !noise.is_empty() {
            for i in 0..n {
                if st.load[i].iter().any(|l| l.0 >= noise.len()) {
                    continue;
                }
                let w = st.a[i] + st.load[i].iter().map(|(k, x)| x * noise[*k]).sum::<f64>();
                let w = if st.kind[i] == Co::Trunc { w.max(0.0) } else { w };
                let got = tr(st.kind[i], f[i]);
                if edge(st.kind[i], w, got) {
                    continue;
                }
                ensure!((got - w).abs() <= sc[i] * 10.0 * (1.0 + s[i].abs()) + 1e-9 * st.c[i][i].sqrt(), "noise", "coordinate {i} becomes {got:e}, the reported increments {noise:?} say {w:e}; {}", here());
            }
            ctx.count("reported_increments_checked");
        }
        for i in 0..n {
            let got = tr(st.kind[i], f[i]);
            if !probe[i] {
                ensure!(st.kind[i] == Co::Log || got >= 0.0, "truncation", "coordinate {i} is {got} under shocks {z:?}; {}", here());
                continue;
            }
            let z: Vec<f64> = z.iter().map(|x| realised(*x)).collect();
            let lin = tr(st.kind[i], f0[i]) + (0..z.len()).map(|k| b[i][k] * z[k]).sum::<f64>();
            let want = if st.kind[i] == Co::Trunc { lin.max(0.0) } else { lin };
            let size: f64 = z.iter().map(|x| x.abs()).sum::<f64>();
            if edge(st.kind[i], want, got) {
                continue;
            }
            ensure!((got - want).abs() <= sc[i] * (1.0 + s[i].abs()) * (10.0 + 20.0 * size / h) + 1e-9 * st.c[i][i].sqrt() * size, "shock-response", "coordinate {i} becomes {got:e} under shocks {z:?}, its loadings say {want:e}; {}", here());
            if st.kind[i] == Co::Trunc && lin < 0.0 {
                ctx.count("truncations_exercised");
            }
        }
        ctx.count("random_shock_vectors");
    }
    ctx.count("steps_checked");
    ctx.obs("f0", f0[0]);
    Ok(())
}

pub fn vec_close(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y, tol))
}

// ------------------------------------------------------------------ the SABR-LV population

/// A SABR-LV population: time-dependent SABR block, local-variance surface, bins.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct SlvQ {
    pub td: Spec,
    pub ts: Vec<f64>,
    pub ks: Vec<f64>,
    pub var: Vec<Vec<f64>>,
    pub bins: usize,
}

pub fn gen_slv(r: &mut Prng) -> SlvQ {
    let td = gen_spec(r, 7);
    let Spec::Td { f0, .. } = &td else { unreachable!() };
    let f0 = *f0;
    let end = td.horizon();
    let nt = r.usize(1, 4);
    let nk = r.usize(1, 6);
    // some grids end before the horizon, or leave wings uncovered
    let ts: Vec<f64> = (0..nt).map(|i| dyadic(end * (i as f64 + 0.7) / nt as f64) + i as f64 / 4096.0).collect();
    let mut ks: Vec<f64> = (0..nk).map(|i| f0 * (0.5 + 1.1 * i as f64 / nk as f64)).collect();
    ks.dedup();
    let var = ts.iter().map(|_| ks.iter().map(|_| r.dec(0.0001, 0.25, 4)).collect()).collect();
    SlvQ { td, ts, ks, var, bins: *r.pick(&[2usize, 2, 3, 5, 8, 25, 50]) }
}

impl SlvQ {
    pub fn build(&self, seed: u64) -> Result<TimeDependentSabrSlvSimulator, Violation> {
        let dup = DupireLocalVol { expiries: self.ts.clone(), strikes: self.ks.clone(), variance: self.var.clone() };
        no_panic("building the SABR-LV simulator", || TimeDependentSabrSlvSimulator::new(self.td.td_params(), dup, seed).with_bins(self.bins))
    }
    /// bilinear, clamped to the grid
    pub fn local_variance(&self, t: f64, k: f64) -> f64 {
        let find = |xs: &[f64], x: f64| -> (usize, usize, f64) {
            if x <= xs[0] {
                return (0, 0, 0.0);
            }
            match xs.iter().position(|y| *y >= x) {
                Some(i) => (i - 1, i, (x - xs[i - 1]) / (xs[i] - xs[i - 1])),
                None => (xs.len() - 1, xs.len() - 1, 0.0),
            }
        };
        let (a, b, u) = find(&self.ts, t);
        let (c, e, v) = find(&self.ks, k);
        let row = |i: usize| (1.0 - v) * self.var[i][c] + v * self.var[i][e];
        (1.0 - u) * row(a) + u * row(b)
    }
}
