//! Reference for the effective parameters of time-dependent SABR schedules: constant parameters
//! whose realised variance has the schedule's first two moments, and the vanna-weighted average
//! correlation.
use crate::core::engine::*;
use crate::core::prng::Prng;
use crate::ensure;
use finquant::models::forex::sabr_effective::{PiecewiseConstant, effective_correlation, effective_term_structure, effective_vol_vol};

/// five-point Gauss-Legendre on 24 panels
fn integrate(a: f64, b: f64, f: impl Fn(f64) -> f64) -> f64 {
    const X: [f64; 5] = [-0.906_179_845_938_664, -0.538_469_310_105_683_1, 0.0, 0.538_469_310_105_683_1, 0.906_179_845_938_664];
    const W: [f64; 5] = [0.236_926_885_056_189_08, 0.478_628_670_499_366_47, 0.568_888_888_888_888_9, 0.478_628_670_499_366_47, 0.236_926_885_056_189_08];
    let n = 24;
    let h = (b - a) / n as f64;
    (0..n).map(|i| (0..5).map(|j| W[j] * f(a + h * (i as f64 + 0.5 + 0.5 * X[j]))).sum::<f64>() * 0.5 * h).sum()
}
/// ∫₀^d e^{cτ} dτ
fn grow(c: f64, d: f64) -> f64 {
    if c == 0.0 { d } else { (c * d).exp_m1() / c }
}

/// E[V] and E[V²]/2 of V = ∫ v² dt, v lognormal with volatility γ(t) around ω(t)
fn moments(knots: &[f64], g: &[f64], w: &[f64], n: usize) -> (f64, f64) {
    let (mut m1, mut m2, mut big, mut h) = (0.0, 0.0, 0.0f64, 0.0);
    for k in 0..n {
        let (c, o, d) = (g[k] * g[k], w[k] * w[k], knots[k + 1] - knots[k]);
        m1 += o * big.exp() * grow(c, d);
        m2 += integrate(0.0, d, |t| o * (big + c * t).exp() * (h + o * (5.0 * big).exp() * grow(5.0 * c, t)));
        h += o * (5.0 * big).exp() * grow(5.0 * c, d);
        big += c * d;
    }
    (m1, m2)
}

/// the library's effective parameters of the schedules up to knot `n`
pub fn check(v: &PiecewiseConstant, a: &PiecewiseConstant, r: &PiecewiseConstant, n: usize, ctx: &mut Ctx) -> Outcome {
    let t = v.knots[n];
    let (m1, m2) = moments(&v.knots, &v.values, &a.values, n);
    let growth: f64 = (0..n).map(|k| v.values[k].powi(2) * (v.knots[k + 1] - v.knots[k])).sum();
    if !(m1.is_finite() && m2.is_finite() && m1 > 1e-100 && growth < 12.0) {
        return Ok(());
    }
    let (g, w, c) = no_panic("effective parameters", || (effective_vol_vol(v, a, t), effective_term_structure(v, a, t), effective_correlation(v, a, r, t)))?;
    let here = || format!("γ {:?}, ω {:?}, ρ {:?} on {:?} to {t}", v.values, a.values, r.values, v.knots);
    let ratio = m2 / (m1 * m1);
    let x = g * g * t;
    ensure!(g >= 0.0 && g.is_finite(), "effective", "effective vol-of-vol {g}: {}", here());
    let (c1, c2) = moments(&[0.0, t], &[g], &[1.0], 1);
    let own = if x < 1e-12 { 0.5 } else { c2 / (c1 * c1) };
    // a schedule may spread the variance less than any constant one does
    let want = ratio.max(0.5);
    ensure!((own - want).abs() <= 1e-10 * want + 1e-4 * (want - 0.5), "effective", "effective vol-of-vol {g} spreads the realised variance by {own}, the schedule by {ratio}: {}", here());
    let level = (m1 / grow(g * g, t)).sqrt();
    ensure!((w / level - 1.0).abs() <= 2e-6, "effective", "effective level {w}, the schedule's mean variance says {level}: {}", here());
    let avg: f64 = (0..n).map(|k| r.values[k] * v.values[k] / a.values[k] * (v.knots[k + 1] - v.knots[k])).sum();
    let rho = if g < 1e-15 { 0.0 } else { w / (g * t) * avg };
    ensure!((c - rho).abs() <= 1e-9 * (1.0 + rho.abs()), "effective", "effective correlation {c}, average {rho}: {}", here());
    ctx.count("probe.effective_parameters_checked");
    Ok(())
}

/// schedules of all shapes
pub fn probe(r: &mut Prng, ctx: &mut Ctx) -> Outcome {
    let n = r.usize(1, 6);
    let mut knots = vec![0.0];
    for k in 0..n {
        knots.push(knots[k] + *r.pick(&[1.0 / 365.0, 0.02, 0.1, 0.25, 0.5, 1.0, 2.0]) * (1.0 + r.dec(0.0, 0.3, 3)));
    }
    let level = *r.pick(&[0.01, 0.1, 0.3, 3.0]);
    let calm = *r.pick(&[1.0, 1.0, 1.0, 0.05, 1e-3, 0.0]);
    let flat = r.chance(0.2);
    let (mut v, mut a, mut c) = (vec![], vec![], vec![]);
    for k in 0..n {
        v.push(if flat && k > 0 { v[0] } else { calm * if r.chance(0.1) { 0.0 } else { r.dec(0.02, 1.2, 3) } });
        a.push(level * r.dec(0.5, 1.8, 3));
        c.push(r.dec(-0.95, 0.95, 2));
    }
    let pc = |x: Vec<f64>| PiecewiseConstant::new(knots.clone(), x);
    let (v, a, c) = (pc(v), pc(a), pc(c));
    for k in 0..n {
        let t = knots[k] + (knots[k + 1] - knots[k]) * r.dec(0.05, 0.95, 2);
        ensure!(c.at(t) == c.values[k], "schedule", "{c:?} is {} at {t}", c.at(t));
    }
    ensure!(c.at(0.0) == c.values[0] && c.at(knots[n]) == c.values[n - 1] && c.n_segments() == n && c.final_time() == knots[n], "schedule", "{c:?}");
    for k in 1..=n {
        check(&v, &a, &c, k, ctx)?;
    }
    Ok(())
}
