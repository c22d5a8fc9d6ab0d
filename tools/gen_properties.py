#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

YC = "src/markets/termstructures/yieldcurve.rs"
OIS = "src/markets/termstructures/yieldcurve/oisratehelper.rs"
FUT = "src/markets/termstructures/yieldcurve/ratehelper.rs"
SWP = "src/derivatives/interestrate/swap.rs"
OBS = "src/patterns/observer.rs"
VOL = "src/markets/interestrate/volsurface.rs"
CAP = "src/derivatives/interestrate/cap.rs"
SIM = "src/models/common/simulation.rs"
FWD = "src/markets/forex/quotes/forwardpoints.rs"
FXB = "src/derivatives/forex/basic.rs"

prop("C01", "A notified yield curve equals a fresh bootstrap of the current market",
 "After every successful notification each attached, still-alive yield curve holds the pillars (dates, market rates, zero rates, discount factors, in order) that bootstrapping the market data's current quotes on its current valuation date gives, so that each deposit's pillar carries the deposit's own rate, quoted par swaps reprice to zero NPV on the curve they were stripped from, and discount factors, zero rates and forward rates are measured from the market's current valuation date, interpolated between pillars and flat beyond the last one. "
 "Between notifications no edit of a quote, of the quote list or of the valuation date reaches a curve. "
 "Observers attached late, attached twice, dropped, or of a different type neither disturb nor are disturbed by the others.",
 ["histories", "inputs", "schedules"],
 "Every history of quote edits, quote additions and removals, valuation-date rolls, observer attachments and drops, notifications and queries, over every mix of deposits, futures strips and swaps, on any valuation date.",
 "The unit test attaches one curve, notifies once on one hand-written market and compares a few pillars; it never edits a quote after attaching, never rolls the date, never drops an observer and never notifies twice.",
 [YC, OIS, FUT, SWP, OBS],
 [("YieldTermMarketData::notify_observers / attach", YC), ("YieldTermStructure::update", YC), ("YieldTermMarketData::get_stripped_curve", YC), ("OISRate::zero_rate, FuturesRate::zero_rate, InterestRateSwap::solve_zero_rate", OIS)],
 [("observers", "weak list of attached observers, in attachment order", YC), ("stripped_curves + valuation_date", "what a live curve discounts with", YC)],
 ["YieldTermStructure::{discount,zero_rate,forward_rate,stripped_curves}", "InterestRateSwap::npv"])

prop("C02", "A failed market-data update is reported and leaves no damaged curve behind",
 "When a calendar or day counter the market data depends on fails at any call while curves are being rebuilt, or an attached observer itself fails, or a quote cannot be bootstrapped (unknown IMM code, par rate out of reach, no legs, NaN or infinite quotes), the notification returns an error and does not panic. "
 "A curve whose rebuild failed keeps its previous pillars and valuation date in full (never a mixture), and once the fault is gone the next notification brings every live curve to exactly the state it would have had without the fault.",
 ["fault_sequences", "histories", "schedules"],
 "Every position of an injected failure inside the bootstrap (each calendar or day-counter call, transient or persistent), every order of failing and healthy observers, every history around it.",
 "No test injects a failing calendar, day counter or observer; all shipped calendars succeed.",
 [YC, OIS, FUT, SWP, OBS],
 [("Result propagation in get_stripped_curve / update / notify_observers", YC), ("solve_zero_rate", SWP)],
 [("stripped_curves", "replaced as a whole", YC)],
 ["notify_observers' Result", "YieldTermStructure fields after a failed update"])

prop("C03", "A rebuilt caplet-volatility surface reprices its quotes and is replaced whole",
 "After a successful rebuild the surface is the column-by-column strip of the current cap quotes on the current curve: every quote that added a new expiry on its strike reprices to its premium, lookups are flat beyond the last expiry, use the first pillar at or after the expiry, are linear in strike between nodes and flat outside. "
 "A rebuild that fails (unattainable premium, NaN or infinite strike, failing day counter, empty schedule) returns an error and leaves the surface exactly as it was, and a later successful rebuild equals a fresh one. Notifying cap market data reaches every live observer once per attachment.",
 ["histories", "fault_sequences", "inputs"],
 "Every history of curve rolls, premium and quote edits, rebuilds and lookups, with unattainable premiums or day-counter failures at any call.",
 "The tests strip two or three hand-written quote sets once; none rebuilds a live surface, none makes a rebuild fail after a success.",
 [VOL, "src/derivatives/interestrate/basic.rs", "src/models/common/bachelier.rs"],
 [("IRNormalVolSurface::rebuild", VOL), ("strip_caplet_vols / strip_one_strike", VOL), ("caplet_volatility", VOL)],
 [("valuation_date + pillars", "the surface", VOL)],
 ["IRNormalVolSurface fields", "caplet_volatility", "CapFloor::mtm"])

prop("C04", "Dated Monte Carlo captures each observation on schedule",
 "A dated simulation walks every path from its initial state through steps no longer than the requested cap that tile the interval from valuation to the last observation without gap or overlap, hands the model each step's midpoint and length as measured by the supplied day counter, and records for every path exactly one state per observation date, namely the state reached at that date, whatever the order or multiplicity of the dates. "
 "An interval of zero length under the day counter advances nothing but still records its observations; a day counter that fails never yields silently wrong paths. Time measured by the shipped day counters keeps pace with the calendar: it never runs backwards by more than a few days or stretches a period several times over.",
 ["schedules", "inputs", "fault_sequences"],
 "Every set of observation dates (unsorted, adjacent, repeated), step cap, number of paths, day-count convention and day-counter failure position.",
 "Tests use one or two observation dates with Actual/365; they never use conventions with zero-length days, never repeated or unsorted dates and never a failing day counter.",
 [SIM], [("simulate_at_dates", SIM), ("DatedPaths::states_at / sample", SIM)],
 [("paths", "paths[path][observation]", SIM)], ["the (t, dt) sequence a SimulationModel is given", "DatedPaths"])

prop("C05", "A simulation is a function of its inputs and seed alone",
 "Every path simulator produces the same states for the same parameters, seed and call sequence, in any process, at any wall-clock time, with any operating-system entropy and whatever other simulators run interleaved with it in the same process. "
 "Different seeds give different paths; outside the SABR-LV population, whose particles interact, a batch of paths is the sequential composition of single steps, so that the first k paths of a longer batch are the batch of k and a batch split in two calls continues where the first ended.",
 ["schedules", "histories", "configurations"],
 "Every interleaving of step, path and batch calls across any number of simulator instances, seeds and parameter sets, under clock jumps and changed entropy.",
 "Two or three reproducibility tests run one simulator twice in a row in one process; interleavings, splits and environment changes are never tried.",
 [SIM, "src/models/common/cir.rs", "src/models/interestrate/hull_white.rs", "src/models/forex/fx_hhw.rs", "src/models/forex/fx_hhw_stock.rs", "src/models/forex/sabr.rs", "src/models/forex/sabr_time_dependent.rs", "src/models/forex/sabr_slv.rs", "src/models/interestrate/fmm.rs", "src/models/forex/fx_fmm_simulator.rs"],
 [("one owned ChaCha20 generator per simulator, seeded in the constructor", SIM)],
 [("rng", "each simulator's own generator", SIM)], ["states returned by step / simulate / simulate_at_dates"])

prop("C06", "Brownian, CIR, Hull-White and FX-HHW steps follow their stated dynamics",
 "For every state, time, step length and parameter set, one step of the Brownian, geometric Brownian, CIR, Hull-White, FX-Heston-Hull-White and FX-HHW-stock simulators moves the state by the drift, and spreads it with the covariance (including every stated correlation and quanto correction), that the model's documented scheme prescribes, as a function of the Gaussian shocks drawn. "
 "A path or batch is exactly the iteration of such steps on the requested time grid.",
 ["inputs", "histories"],
 "Every admissible parameter set, state, time and step, and every realisation of the shocks.",
 "Tests compare Monte Carlo means with closed forms at three-standard-error tolerance for one or two parameter sets, which hides errors in single correlations, quanto terms, clamps and time arguments.",
 [SIM, "src/models/common/cir.rs", "src/models/interestrate/hull_white.rs", "src/models/forex/fx_hhw.rs", "src/models/forex/fx_hhw_stock.rs"],
 [("step / simulate of each simulator", "src/models/forex/fx_hhw.rs"), ("Cholesky factor of the correlation matrix", "src/models/forex/fx_hhw.rs")],
 [], ["states before and after step", "the Gaussian draws (random-generator seam)"])

prop("C07", "SABR and time-dependent SABR steps follow their stated dynamics",
 "For every state, time, step and parameter set, one step of the SABR simulator and of the time-dependent SABR simulator moves forward and volatility by the documented scheme (forward truncated at zero, where it stays absorbed for beta > 0, log-Euler volatility, correlation of the two shocks) with the parameters that apply at the step's time: a volatility-level schedule scales the forward's diffusion relative to its initial level. The noise a step reports is the noise it applied; a path is exactly the iteration of steps. A time-dependent simulator reduces to a constant one exactly when its schedules are constant, and to one with the same parameters.",
 ["inputs", "histories", "schedules"],
 "Every admissible parameter set and schedule of time-dependent parameters, state, time, step and realisation of shocks.",
 "Tests check a few Monte Carlo prices at loose tolerance for one parameter set and constant or two-segment schedules.",
 ["src/models/forex/sabr.rs", "src/models/forex/sabr_time_dependent.rs"],
 [("SabrSimulator::step", "src/models/forex/sabr.rs"), ("TimeDependentSabrSimulator::step_with_noise, PiecewiseConstant::at", "src/models/forex/sabr_time_dependent.rs")],
 [], ["states before and after step", "the Gaussian draws (random-generator seam)"])

prop("C08", "Forward-market-model steps and bookkeeping follow the stated dynamics",
 "For every tenor structure, state, time and step, one step of the FMM and of the two-currency FX-FMM simulator moves rates and FX by the documented drift (risk-neutral and quanto) and covariance (decay, loadings and all correlations), freezes a rate once its accrual period has ended, accumulates the realised variance over exactly the part of the step inside each period, and records the state at each tenor date exactly when the step crosses it. "
 "Bonds, stubs and the bank account computed from a state are mutually consistent: P(t,t)=1, products of one-period bonds compose, and the bank account at a tenor date is the product of the realised periods. Over a short step from inside a period the bank account of either currency earns the short rate and no noise, and domestic bonds earn it on average.",
 ["inputs", "histories", "schedules"],
 "Every tenor structure, volatility/correlation set, state, time grid (aligned or not with the tenor dates) and realisation of shocks.",
 "Tests use one four-to-five period structure with a uniform grid and Monte Carlo tolerances.",
 ["src/models/interestrate/fmm.rs", "src/models/forex/fx_fmm.rs", "src/models/forex/fx_fmm_simulator.rs"],
 [("FmmSimulator::step / simulate", "src/models/interestrate/fmm.rs"), ("FxFmmSimulator::step", "src/models/forex/fx_fmm_simulator.rs")],
 [("y_diag, crossing snapshots", "accumulated variance and states frozen at tenor dates", "src/models/interestrate/fmm.rs")],
 ["states before and after step", "the Gaussian draws (random-generator seam)"])

prop("C09", "The SABR-LV particle population evolves as the stated particle method",
 "Every population step of the SABR stochastic-local-volatility simulator moves each particle with the leverage obtained from that step's own cross-section (equal-count bins over sorted forwards, the bin's mean squared volatility) and the local volatility at that time, and the volatility by its own scheme; particle forwards stay non-negative and finite, the population never gains or loses particles, and the result is that of the lock-step population whatever the order the particles are listed in.",
 ["inputs", "histories", "schedules"],
 "Every parameter set, local-volatility surface, population size, bin count, time grid and realisation of shocks.",
 "Tests check flat-surface Monte Carlo prices for one configuration.",
 ["src/models/forex/sabr_slv.rs", "src/models/forex/dupire_local_vol.rs"],
 [("TimeDependentSabrSlvSimulator::simulate", "src/models/forex/sabr_slv.rs")],
 [], ["particle states after each step", "the Gaussian draws (random-generator seam)"])

prop("C10", "No shock sequence drives a simulator out of its state space",
 "Under any realisable sequence of Gaussian shocks, however extreme or one-sided, and any admissible step lengths, simulated variances used for diffusion are never negative, SABR forwards never fall below zero (and stay there for beta > 0), volatilities stay positive, FX and stock prices keep their sign, nothing becomes NaN, and no simulator panics.",
 ["inputs", "fault_sequences", "histories"],
 "Every sequence of shocks the generator can produce (including adversarial extremes), with large and tiny steps, from boundary states.",
 "Random tests essentially never draw the extreme or one-sided sequences that reach the boundaries.",
 [SIM, "src/models/common/cir.rs", "src/models/forex/fx_hhw.rs", "src/models/forex/fx_hhw_stock.rs", "src/models/forex/sabr.rs", "src/models/forex/sabr_time_dependent.rs", "src/models/forex/sabr_slv.rs", "src/models/interestrate/fmm.rs"],
 [("full truncation / absorption / log-Euler clamps in step", "src/models/common/cir.rs")],
 [], ["every state along a path"])

prop("C11", "IMM codes resolve correctly at any reference date and wall-clock time",
 "A valid IMM code (either letter case) resolves to the third Wednesday of its month in the first matching year not before the reference date; with a reference date the answer does not depend on the wall clock, and without one the reference is the current UTC date, also just after the clock jumps or crosses a midnight, year or decade boundary. "
 "Code and date are inverse to each other, invalid codes give none, and the next-date function always returns the first (main-cycle) third Wednesday strictly after the date; none of these panics or fails to return.",
 ["histories", "inputs", "fault_sequences"],
 "Every code, reference date and date in 1910-2190, and every history of wall-clock settings including jumps forwards and backwards between queries.",
 "Tests use a handful of fixed dates and cannot set the clock.",
 ["src/time/imm.rs", "src/markets/interestrate/futures.rs", FUT],
 [("IMM::date / next_date / code / is_imm_code", "src/time/imm.rs")],
 [], ["IMM's methods", "FuturesRate::settle_date / maturity_date"], None)

prop("C12", "Saved trades and markets survive storage, or fail to load cleanly",
 "Whatever can be serialised (swaps, caps, forwards, options, curves, indices, calendars, day counters, market quotes, FX forward quotes and the enums and values inside them) and is written as JSON and read back through streams that deliver short reads and writes and interruptions, or through a store that keeps fields in an order of its own, restores an object that holds the same fields, behaves identically (valuation and risk under the same market to the last digit, the same business days, day counts and schedules) and is stored as the same record again. "
 "A read or write that the device fails is reported as an error. A torn or truncated record, or one that lost a required field, is never restored as a complete object, and no stored byte sequence, however corrupted or deeply nested, makes loading panic.",
 ["crash_points", "fault_sequences", "inputs"],
 "Every object reachable from the generators, every crash point (byte offset) of the write, every sequence of short, interrupted and failing I/O calls and bit flips.",
 "No test serialises through a faulty stream; only a couple of calendars are round-tripped through a string.",
 [SWP, CAP, "src/derivatives/forex/forward.rs", "src/derivatives/forex/option.rs", YC, "src/time/calendars.rs", "src/time/daycounters.rs", FWD],
 [("serde derives and typetag registrations", "src/time/calendars.rs")],
 [], ["serde_json::to_writer / from_reader", "pricing of the restored object"])

prop("C13", "The simplex minimiser survives a faulting objective and never loses its best",
 "For every objective, including ones that return NaN or infinity or change cost at arbitrary evaluations, the minimiser returns (no panic, evaluations bounded by a fixed multiple of the iteration limit), the value it reports is the objective's value at the point it reports, that value is finite and no worse than the objective at the starting point whenever the starting value is finite, and it is the best finite value it can justify among its final simplex. It claims convergence only when a full simplex of evaluations lies within both tolerances of the reported minimum, and otherwise has used up its iterations; the default options are the documented ones. "
 "On a fault-free smooth convex bowl of few dimensions it converges to the minimum from a starting point whose coordinates are of one magnitude, and once transient faults stop it still does.",
 ["fault_sequences", "inputs"],
 "Every placement of NaN/infinite evaluations (transient, persistent, region-shaped), start, dimension and option set.",
 "Tests minimise four smooth functions without a single failing evaluation.",
 ["src/math/optimize.rs"], [("nelder_mead", "src/math/optimize.rs")], [], ["Minimum{x,f,iterations,converged}", "the sequence of evaluations"])

prop("C14", "Calendar and day-count answers ignore history and follow their conventions",
 "The verdict of every calendar (business day, adjustment, advance, business days between) and every day counter for given arguments is the same whatever was asked before, in whatever order, through whichever instance (fresh, long-lived, joined or restored from storage), at whatever wall-clock time, time zone and entropy; queries over the supported years never panic. "
 "Month ends, adjustment under every convention (Nearest included), advance by every kind of period, business-day counts with every inclusion flag, joined calendars (business days of all components) and Business/252 follow from those same daily verdicts; every other day counter gives the day count and year fraction its published convention prescribes, and the date it finds for a time lies that time away. Moving a date by any period gives the calendar's date or, beyond the range of dates, an error.",
 ["histories", "schedules", "configurations"],
 "Every interleaving of queries across all shipped calendars and day counters, over all supported dates, process environments and clock settings.",
 "Tests query each calendar on a few dates in one fixed order.",
 ["src/time/calendars.rs", "src/time/calendars/jointcalendar.rs", "src/time/daycounters.rs", "src/time/period.rs"],
 [("Calendar and DayCounters implementations, stateless by construction", "src/time/calendars.rs")],
 [], ["is_business_day / adjust / advance / business_days_between / day_count / year_fraction"])

prop("C15", "FX forward ladders and cut-offs track the market clock",
 "Along any timeline of market ticks, the effective valuation date of a pair moves to the next joint business day exactly from its cut-off time on (and is that next business day throughout weekends and holidays), and never runs backwards while time advances; spot, near and far dates follow the pair's settlement lag on its joint calendar, forward tenors capping at the month's last business day when spot is one. "
 "After any history of quote edits, rolls and lookups a forward-point lookup depends only on the current quotes and valuation date: exact at quoted settlement dates, linear in days between neighbours, none outside the quoted range or on or before valuation; notification reaches every live observer exactly once per attachment and never a dropped one.",
 ["histories", "schedules", "inputs"],
 "Every currency pair, timeline of ticks around cut-offs, weekends and holidays, ladder of quotes in any order, and history of edits, rolls, attachments, drops and lookups.",
 "Tests look up fixed ladders on one date and three cut-off cases.",
 [FWD, FXB, "src/time/period.rs", "src/time/calendars/jointcalendar.rs"],
 [("FXForwardHelper::get_forward / notify_observers", FWD), ("FXUnderlying::effective_valuation_date / settlement_date / near_date", FXB)],
 [("observers, quotes, valuation_date", "helper state", FWD)], ["get_forward", "effective_valuation_date", "observer update counts"])

prop("C16", "A live book is valued from the current snapshot only",
 "After any history of market moves, curve notifications, surface rebuilds and earlier valuations, the value, DV01, gamma and vega of a swap, cap or floor and the value, delta, gamma and vega of an FX forward or option equal those an independent reference computes from the current market snapshot and trade terms, cash flows paid before the valuation date excluded. "
 "Valuing is read-only: repeating it, in any order across trades, changes neither the market nor any later value; buying and selling the same trade cancel, and expired or out-of-range trades are errors, not numbers.",
 ["histories", "schedules", "inputs"],
 "Every book of generated trades, market history and order of valuations.",
 "Tests value single hand-written trades once on one market each.",
 [SWP, CAP, "src/derivatives/forex/forward.rs", "src/derivatives/forex/option.rs", "src/markets/interestrate/market_context.rs", "src/markets/forex/market_context.rs"],
 [("IRDerivatives / FXDerivatives implementations", CAP), ("IrMarketContext / FxMarketContext", "src/markets/forex/market_context.rs")],
 [], ["mtm / dv01 / delta / gamma / vega", "InterestRateSwap::npv"])

prop("C17", "A failing calendar or day counter surfaces as an error in every pricer",
 "Whenever a caller-supplied calendar or day counter fails, or a calendar offers no date, at any one of the calls a valuation, schedule generation, forward-ladder lookup, volatility strip or date computation makes, the outcome is an error or exactly the fault-free result, never a panic and never a different number, and the same call repeated after the fault gives exactly the fault-free result. A swap leg for which no schedule can be generated is likewise an error.",
 ["fault_sequences", "inputs"],
 "Every failure position (each calendar and day-counter call of the operation, single or persistent) in every generated operation.",
 "No test injects a failing calendar or day counter.",
 [SWP, CAP, VOL, FWD, "src/time/period.rs", "src/markets/interestrate/futures.rs", YC],
 [("Result propagation", "src/error.rs")], [], ["Result of each public pricing and scheduling call"])

prop("C18", "An FX volatility surface returns its current delta quotes and rejects bad books",
 "However the quote feed behaved (ticks, losses, duplicates, reordering, corruption, date rolls), a surface built from the current book returns each quoted volatility at that quote's own strike and expiry (DNS ATM K=F*exp(s^2*T/2); call/put K=F*exp(s^2*T/2 - N^-1(D or 1-D)*s*sqrt(T)), direct call and put quotes winning over risk reversal and butterfly), and between and beyond quotes the documented parametrisation (quadratic in N(ln(F/K)/(1.5*atm*sqrt(T))) through lowest, ATM and highest quote plus a piecewise-linear residual in ln(K/F)) with total variance linear in Act/365 time between expiries and flat volatility outside. "
 "It depends on nothing but the book and the valuation date (not on quote order, history or wall clock). A book that cannot make a surface (missing or duplicate ATM, unmatched delta, delta outside (0,0.5), no wing, expired pillar, a forward or resolved volatility that is not finite and positive, strikes out of order) and a bad query (non-positive or NaN strike) are errors, never a panic and never a NaN.",
 ["histories", "inputs", "fault_sequences"],
 "Every book of pillars and quotes, every sequence of feed faults and date rolls, every query.",
 "Tests build a handful of clean books.",
 ["src/markets/forex/quotes/volsurface.rs", "src/models/forex/market_data.rs"],
 [("FXVolSurface::new / volatility", "src/markets/forex/quotes/volsurface.rs")], [], ["Result of FXVolSurface::new, volatility, and smile_strip"])

prop("C19", "Smile calibration reports truthfully under any market strip and budget",
 "Each calibrator (constant SABR, time-dependent SABR, FX-HHW, FX-HLMM, FX-FMM), given any market strip and cut off after any number of iterations, either returns an error (for a strip that is empty, ragged, or holds an expiry, forward, strike or vol that is not finite and positive, or pillars out of order, or pillars no schedule of effective parameters can reach) or parameters inside the model's domain and configured bounds, with everything declared fixed left untouched; it never panics. "
 "The reported error is the root-mean-square difference between the quotes and the model vols of the very parameters returned, is no worse than that of the starting parameters, and never grows with a larger budget; the time-dependent schedule meets each pillar's effective level and the first pillar's vol-of-vol and reports its residual truthfully; the same market always gives the same fit whatever was fitted in between; and from the neighbourhood of an exact SABR fit an ample budget, seeding each fit with the last, finds a fit within 1e-4 or ends in a point no small move improves or at an end of the parameter range. The effective parameters that tie a time-dependent schedule to each pillar are those constant parameters whose realised variance has the schedule's own first two moments, and the vanna-weighted mean correlation.",
 ["fault_sequences", "inputs", "histories"],
 "Every strip, feed fault and iteration cut-off.",
 "Tests calibrate a few clean strips to convergence.",
 ["src/models/forex/sabr_calibrator.rs", "src/models/forex/sabr_time_dependent_calibrator.rs", "src/models/forex/fx_hhw_calibrator.rs", "src/models/forex/fx_hlmm_calibrator.rs", "src/models/forex/fx_fmm_calibrator.rs", "src/models/forex/market_data.rs", "src/models/forex/sabr_effective.rs", "src/models/common/calibration.rs"],
 [("Calibration::calibrate", "src/models/common/calibration.rs"), ("MarketSmileStrip::validate", "src/models/forex/market_data.rs"), ("effective_vol_vol, effective_term_structure, effective_correlation", "src/models/forex/sabr_effective.rs")], [], ["CalibrationReport of each calibrator"])

# --- pure functions: simulation cannot address them -----------------------------------
def na(id, title, st, files, mech):
    prop(id, title, st, ["inputs"], "Every admissible argument tuple.", "Tests sample a few argument tuples.", files, mech)

na("C31", "Holiday calendars match the exchanges' published holidays", "For every date in the supported range each calendar's business-day verdict is the published one of its market.", ["src/time/calendars.rs"], [("Calendar::is_business_day", "src/time/calendars.rs")])
na("C33", "Black-Scholes and Bachelier closed forms satisfy parity, bounds and limits", "For every forward, strike, variance and discount the closed-form option values satisfy put-call parity, no-arbitrage bounds, monotonicity and limits.", ["src/models/common/black_scholes.rs", "src/models/common/bachelier.rs", "src/derivatives/forex/option.rs"], [("closed forms", "src/models/common/black_scholes.rs")])
na("C34", "COS prices agree with the characteristic functions they integrate", "For every admissible model parameter set the COS price equals the Fourier inversion of the characteristic function to the stated accuracy.", ["src/models/common/cos_pricer.rs", "src/models/forex/fx_hhw1_chf.rs", "src/models/forex/fx_hlmm1_chf.rs", "src/models/forex/fx_fmm1_chf.rs"], [("CosPricer", "src/models/common/cos_pricer.rs")])
na("C35", "Hagan SABR smiles agree with the published expansion", "For every parameter set and strike the SABR implied volatility agrees with the published expansion and admits no arbitrage the expansion itself does not.", ["src/models/forex/sabr.rs"], [("Hagan expansion", "src/models/forex/sabr.rs")])
na("C37", "Dupire local variance is that of the given surface", "For every surface and point the local volatility equals Dupire's formula applied to that surface.", ["src/models/forex/dupire_local_vol.rs"], [("Dupire finite differences", "src/models/forex/dupire_local_vol.rs")])
na("C38", "Hull-White and CIR closed forms agree with their models", "For every parameter set bond prices, moments and variance integrals equal the model's analytic values.", ["src/models/interestrate/hull_white.rs", "src/models/common/cir.rs"], [("closed forms", "src/models/interestrate/hull_white.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
