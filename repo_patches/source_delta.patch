From c77d1c21aca893b2ad7ebe8651bcde7cb215861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 01/44] fix: record dated Monte Carlo observations that fall on
 zero-length intervals

---
 src/models/common/simulation.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/models/common/simulation.rs b/src/models/common/simulation.rs
index 6c831db..b5d15be 100644
--- a/src/models/common/simulation.rs
+++ b/src/models/common/simulation.rs
@@ -156,11 +156,12 @@ pub fn simulate_at_dates<M: SimulationModel>(
         let mut next_obs = 0_usize;
         for i in 1..grid.len() {
             let dt = yf[i] - yf[i - 1];
-            if dt <= 0.0 {
-                continue;
+            // No time passes over a zero-length interval (e.g. 30/360 across
+            // the 30th/31st), but an observation falling there still counts.
+            if dt > 0.0 {
+                let t_mid = 0.5 * (yf[i] + yf[i - 1]);
+                state = model.step(&state, t_mid, dt);
             }
-            let t_mid = 0.5 * (yf[i] + yf[i - 1]);
-            state = model.step(&state, t_mid, dt);
             while next_obs < obs_indices.len() && obs_indices[next_obs] == i {
                 path.push(state.clone());
                 next_obs += 1;
-- 
2.43.0


From e7d8c84c4487d906f1d1d9643637a55de80daaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 02/44] fix: business_days_between returns zero for equal dates
 instead of overrunning the calendar

---
 src/time/calendars.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index 9c81ad8..a1d4728 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -327,7 +327,7 @@ pub trait Calendar: Debug {
         .num_days();
         for date in (from + Duration::try_days(if include_first { 1 } else { 0 }).unwrap())
             .iter_days()
-            .take(day_diff as usize)
+            .take(day_diff.max(0) as usize)
         {
             if self.is_business_day(date) {
                 day_count += 1;
-- 
2.43.0


From a6147c8d5d5792f1ed24e12bac192d407033288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 03/44] fix: do not replace a failed day count by a zero time
 in dated Monte Carlo

---
 src/models/common/simulation.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/models/common/simulation.rs b/src/models/common/simulation.rs
index b5d15be..2901ff5 100644
--- a/src/models/common/simulation.rs
+++ b/src/models/common/simulation.rs
@@ -84,7 +84,8 @@ impl<S: Clone> DatedPaths<S> {
 /// via the model's `step`, and capture state at each observation date.
 ///
 /// * `valuation_date` — `t = 0` reference. All integration times are
-///   measured from here via `day_counter`.
+///   measured from here via `day_counter`; a day-counter error panics, as
+///   there is no schedule to simulate on.
 /// * `observation_dates` — must all be strictly after `valuation_date`.
 /// * `max_step_days` — integration step cap in calendar days. Use 1 for
 ///   daily precision; larger values trade MC accuracy for speed.
@@ -147,7 +148,11 @@ pub fn simulate_at_dates<M: SimulationModel>(
     // day-counter calls inside the inner loop).
     let yf: Vec<f64> = grid
         .iter()
-        .map(|d| day_counter.year_fraction(valuation_date, *d).unwrap_or(0.0))
+        .map(|d| {
+            day_counter
+                .year_fraction(valuation_date, *d)
+                .expect("day counter failed on the integration grid")
+        })
         .collect();
 
     let mut paths: Vec<Vec<M::State>> = vec![Vec::with_capacity(obs.len()); n_paths];
-- 
2.43.0


From 89fbd2f5b202430d00dee87acf713c7026f2ad65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 04/44] fix: IMM::next_date advances to the following month
 (was recursing or panicking)

---
 src/time/imm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/time/imm.rs b/src/time/imm.rs
index 51a8856..bd344e8 100644
--- a/src/time/imm.rs
+++ b/src/time/imm.rs
@@ -131,8 +131,10 @@ impl IMM {
         let mut skip_months = offset - (date.month() % offset);
         if skip_months != offset || date.day() > 21 {
             skip_months += date.month();
-            if skip_months > 12 {
-                month -= 12;
+            if skip_months <= 12 {
+                month = skip_months;
+            } else {
+                month = skip_months - 12;
                 year += 1;
             }
         }
-- 
2.43.0


From 74437b30ba880baaf0496f344579c6fcd15bd91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 05/44] fix: IMM::date accepts the lower-case codes is_imm_code
 accepts

---
 src/time/imm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/time/imm.rs b/src/time/imm.rs
index bd344e8..425bc31 100644
--- a/src/time/imm.rs
+++ b/src/time/imm.rs
@@ -104,7 +104,8 @@ impl IMM {
             let ref_date = ref_date.unwrap_or(chrono::offset::Utc::now().date_naive());
             let month = imm_code.chars().nth(0).unwrap();
             let mut year = imm_code.chars().nth(1).unwrap().to_digit(10).unwrap() as i32;
-            let imm_month = IMMMonth::from_str(&month.to_string()).unwrap() as u32;
+            let imm_month =
+                IMMMonth::from_str(&month.to_ascii_uppercase().to_string()).unwrap() as u32;
             if year == 0 && ref_date.year() <= 1909 {
                 year += 10
             }
-- 
2.43.0


From e8caefa573ca006d8e8a343e50ede37ae12a6231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 06/44] fix: IMM::is_imm_code rejects a single two-byte
 character instead of panicking

---
 src/time/imm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/imm.rs b/src/time/imm.rs
index 425bc31..c04d5b3 100644
--- a/src/time/imm.rs
+++ b/src/time/imm.rs
@@ -50,7 +50,7 @@ impl IMM {
 
     /// IMM Codes are constructed by IMMMonth + year.
     pub fn is_imm_code(&self, imm_code: String, main_cycle: bool) -> bool {
-        if imm_code.len() != 2 {
+        if imm_code.chars().count() != 2 {
             return false;
         }
 
-- 
2.43.0


From d0f1f77adfc811c22c322febdb9f5a5da582bc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 07/44] fix: an invalid IMM code of a futures quote is an
 error, not a panic

---
 src/markets/termstructures/yieldcurve/ratehelper.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/markets/termstructures/yieldcurve/ratehelper.rs b/src/markets/termstructures/yieldcurve/ratehelper.rs
index 0cb1238..9066ac0 100644
--- a/src/markets/termstructures/yieldcurve/ratehelper.rs
+++ b/src/markets/termstructures/yieldcurve/ratehelper.rs
@@ -1,7 +1,7 @@
 use chrono::NaiveDate;
 use serde::{Deserialize, Serialize};
 
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::markets::interestrate::futures::InterestRateFutures;
 use crate::markets::interestrate::interestrateindex::InterestRateIndex;
 use crate::markets::termstructures::yieldcurve::{
@@ -88,9 +88,8 @@ impl InterestRateQuote for FuturesRate {
         InterestRateQuoteEnum::Futures
     }
     fn settle_date(&self, valuation_date: NaiveDate) -> Result<NaiveDate> {
-        Ok(IMM
-            .date(self.imm_code.clone(), Some(valuation_date))
-            .unwrap())
+        IMM.date(self.imm_code.clone(), Some(valuation_date))
+            .ok_or_else(|| Error::InvalidData(format!("invalid IMM code {:?}", self.imm_code)))
     }
     fn maturity_date(&self, valuation_date: NaiveDate) -> Result<NaiveDate> {
         self.futures_spec
-- 
2.43.0


From 5e090198f24af29a118d050c3bd01aa7f17d24e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 08/44] fix: nelder_mead ranks failed (NaN) evaluations last
 instead of panicking

---
 src/math/optimize.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/math/optimize.rs b/src/math/optimize.rs
index faa2c0d..ebc465f 100644
--- a/src/math/optimize.rs
+++ b/src/math/optimize.rs
@@ -49,7 +49,8 @@ impl Default for NelderMeadOptions {
     }
 }
 
-/// Minimise `f` starting from `x0`. Returns the best vertex seen.
+/// Minimise `f` starting from `x0`. Returns the best vertex seen. A NaN
+/// from `f` counts as `+∞`.
 #[allow(clippy::needless_range_loop)] // dense vector ops — indexing reads more naturally than iterators
 pub fn nelder_mead<F>(mut f: F, x0: &[f64], opts: NelderMeadOptions) -> Minimum
 where
@@ -58,6 +59,12 @@ where
     let n = x0.len();
     assert!(n >= 1);
 
+    // A failed evaluation (NaN) ranks behind every finite value.
+    let mut f = |x: &[f64]| {
+        let v = f(x);
+        if v.is_nan() { f64::INFINITY } else { v }
+    };
+
     // Build initial simplex: (n+1) vertices.
     let mut simplex: Vec<Vec<f64>> = Vec::with_capacity(n + 1);
     simplex.push(x0.to_vec());
-- 
2.43.0


From a19ff4853e87418ed16268c9ea21c75819e31595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 09/44] fix: a notified yield curve takes over the market's
 valuation date

---
 src/markets/termstructures/yieldcurve.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 4646b6a..48dffdb 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -315,6 +315,8 @@ impl Observer for YieldTermStructure {
         if let Some(concrete_observable) = observable.as_any().downcast_ref::<YieldTermMarketData>()
         {
             self.stripped_curves = concrete_observable.get_stripped_curve()?;
+            // The pillars are measured from the market's valuation date.
+            self.valuation_date = concrete_observable.valuation_date;
             Ok(())
         } else {
             Ok(())
-- 
2.43.0


From 3d49a739c22b370971355f2f0fd3884f0a3f385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 10/44] fix: one pillar per deposit, and a failing deposit date
 is an error

---
 src/markets/termstructures/yieldcurve.rs | 36 ++++++++++--------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 48dffdb..3958b6d 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -117,29 +117,23 @@ impl YieldTermMarketData {
         let total_size = self.cash_quote.len() + self.futures_quote.len();
         let mut outputs: Vec<StrippedCurve> = Vec::with_capacity(total_size);
 
-        // TODO: figure out a way to get sorted value
-        let mut cash_quote_maturity = Vec::new();
-
+        let mut cash_quotes = Vec::with_capacity(self.cash_quote.len());
         for cash in &self.cash_quote {
-            cash_quote_maturity.push(cash.maturity_date(self.valuation_date).unwrap());
+            cash_quotes.push((cash.maturity_date(self.valuation_date)?, cash));
         }
-        cash_quote_maturity.sort();
-
-        for maturity in cash_quote_maturity {
-            for cash in &self.cash_quote {
-                if cash.maturity_date(self.valuation_date).unwrap() == maturity {
-                    outputs.push(StrippedCurve {
-                        first_settle_date: cash.settle_date(self.valuation_date)?,
-                        date: cash.maturity_date(self.valuation_date)?,
-                        market_rate: cash.value,
-                        zero_rate: cash.zero_rate(self.valuation_date)?,
-                        discount: cash.discount(self.valuation_date)?,
-                        // TODO: Make this more meaningful
-                        hidden_pillar: cash.interest_rate_index.period == Period::Weeks(1),
-                        source: cash.yts_type(),
-                    })
-                }
-            }
+        cash_quotes.sort_by_key(|(maturity, _)| *maturity);
+
+        for (maturity, cash) in cash_quotes {
+            outputs.push(StrippedCurve {
+                first_settle_date: cash.settle_date(self.valuation_date)?,
+                date: maturity,
+                market_rate: cash.value,
+                zero_rate: cash.zero_rate(self.valuation_date)?,
+                discount: cash.discount(self.valuation_date)?,
+                // TODO: Make this more meaningful
+                hidden_pillar: cash.interest_rate_index.period == Period::Weeks(1),
+                source: cash.yts_type(),
+            })
         }
 
         for future in &self.futures_quote {
-- 
2.43.0


From 4382a40036bb476162a461ebef19460d4b6d2ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 11/44] fix: a swap quote that cannot be bootstrapped is an
 error, not a panic

---
 src/derivatives/interestrate/swap.rs     | 22 ++++++++++++++++++++--
 src/markets/termstructures/yieldcurve.rs |  2 +-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/derivatives/interestrate/swap.rs b/src/derivatives/interestrate/swap.rs
index e258896..381cea9 100644
--- a/src/derivatives/interestrate/swap.rs
+++ b/src/derivatives/interestrate/swap.rs
@@ -263,16 +263,34 @@ impl InterestRateSwap {
         valuation_date: NaiveDate,
         stripped_curves: Vec<StrippedCurve>,
     ) -> f64 {
+        self.try_solve_zero_rate(valuation_date, stripped_curves)
+            .unwrap()
+    }
+
+    /// [`solve_zero_rate`](Self::solve_zero_rate), reporting a swap that
+    /// cannot be valued or whose rate is out of reach as an error.
+    pub fn try_solve_zero_rate(
+        &self,
+        valuation_date: NaiveDate,
+        stripped_curves: Vec<StrippedCurve>,
+    ) -> Result<f64> {
         let mut convergency = SimpleConvergency {
             eps: 1e-15f64,
             max_iter: 100,
         };
+        let mut failure = None;
         let mut f = |x| {
             self.calculate_npv(x, valuation_date, &mut stripped_curves.to_vec())
-                .unwrap()
+                .unwrap_or_else(|e| {
+                    failure.get_or_insert(e);
+                    f64::NAN
+                })
         };
         let root = find_root_brent(0f64, 0.5f64, &mut f, &mut convergency);
-        root.unwrap()
+        if let Some(e) = failure {
+            return Err(e);
+        }
+        root.map_err(|e| Error::InvalidData(format!("no zero rate reprices the swap: {e}")))
     }
 
     pub fn discount(self, _valuation_date: NaiveDate) -> Result<f64> {
diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 3958b6d..d8be460 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -157,7 +157,7 @@ impl YieldTermMarketData {
                 hidden_pillar: false,
                 source: swap.yts_type(),
             });
-            let zero_rate = swap.solve_zero_rate(self.valuation_date, outputs.clone());
+            let zero_rate = swap.try_solve_zero_rate(self.valuation_date, outputs.clone())?;
             outputs.last_mut().unwrap().zero_rate = zero_rate;
         }
         Ok(outputs)
-- 
2.43.0


From a11f95aa6957fa765dc422da9833900565ecf0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 12/44] fix: a swap quote without legs or accrual periods is an
 error, not a panic

---
 src/derivatives/interestrate/swap.rs     | 5 ++++-
 src/markets/termstructures/yieldcurve.rs | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/derivatives/interestrate/swap.rs b/src/derivatives/interestrate/swap.rs
index 381cea9..d60ceb6 100644
--- a/src/derivatives/interestrate/swap.rs
+++ b/src/derivatives/interestrate/swap.rs
@@ -521,7 +521,10 @@ impl InterestRateQuote for InterestRateSwap {
             } else {
                 &leg.schedule
             };
-            last_end_dates.push(schedule.last().unwrap().accrual_end_date);
+            let last = schedule
+                .last()
+                .ok_or_else(|| Error::InvalidData("swap leg has no accrual period".to_string()))?;
+            last_end_dates.push(last.accrual_end_date);
         }
         let maturity = if !last_end_dates.is_empty() {
             *last_end_dates.iter().max().unwrap()
diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index d8be460..4d90231 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -5,7 +5,7 @@ use std::cell::RefCell;
 use std::rc::{Rc, Weak};
 
 use crate::derivatives::interestrate::swap::InterestRateSwap;
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::markets::termstructures::yieldcurve::oisratehelper::OISRate;
 use crate::markets::termstructures::yieldcurve::ratehelper::FuturesRate;
 use crate::patterns::observer::{Observable, Observer};
@@ -148,10 +148,14 @@ impl YieldTermMarketData {
             })
         }
         for swap in &self.swap_quote {
+            let first_leg = swap
+                .legs
+                .first()
+                .ok_or_else(|| Error::InvalidData("swap quote has no legs".to_string()))?;
             outputs.push(StrippedCurve {
                 first_settle_date: swap.settle_date(self.valuation_date)?,
                 date: swap.maturity_date(self.valuation_date)?,
-                market_rate: swap.legs.first().unwrap().get_reference_rate(),
+                market_rate: first_leg.get_reference_rate(),
                 zero_rate: 0.005f64,
                 discount: 0f64,
                 hidden_pillar: false,
-- 
2.43.0


From 41c682dd006752be257243340facd52ebbce3911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 13/44] fix: a futures strip without an earlier pillar is an
 error, not a panic

---
 src/markets/termstructures/yieldcurve/ratehelper.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/markets/termstructures/yieldcurve/ratehelper.rs b/src/markets/termstructures/yieldcurve/ratehelper.rs
index 9066ac0..8e4163f 100644
--- a/src/markets/termstructures/yieldcurve/ratehelper.rs
+++ b/src/markets/termstructures/yieldcurve/ratehelper.rs
@@ -38,6 +38,11 @@ impl FuturesRate {
             .day_counter
             .year_fraction(settle_date, maturity_date)?;
         let hidden_discount = 1.0 / (1.0 + year_fraction_index * self.implied_quote());
+        if stripped_curves.is_empty() {
+            return Err(Error::InvalidData(
+                "a futures quote needs an earlier pillar".to_string(),
+            ));
+        }
         let previous_curve = self.retrieve_related_stripped_curve(stripped_curves, settle_date);
         let year_fraction = Actual365Fixed::default().year_fraction(valuation_date, settle_date)?;
         Ok(hidden_discount * (-previous_curve.zero_rate * year_fraction).exp())
-- 
2.43.0


From c01574f23f3a99784c4a8f939b7aff4e8749bf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 14/44] fix: zero rates beyond the last pillar stay flat
 instead of taking the first pillar's

---
 src/markets/termstructures/yieldcurve.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 4d90231..b2913d0 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -217,11 +217,11 @@ impl YieldTermStructure {
     fn step_function_forward_zero_rate(&self, date: NaiveDate) -> f64 {
         let target_date = date + ONE_DAY;
         let mut first = self.stripped_curves.first().unwrap();
-        let mut second = self.stripped_curves.first().unwrap();
+        let mut second = None;
         let mut true_first = self.stripped_curves.first().unwrap();
         for strip_curve in &self.stripped_curves {
             if target_date <= strip_curve.date && !strip_curve.hidden_pillar {
-                second = strip_curve;
+                second = Some(strip_curve);
                 break;
             }
             first = strip_curve;
@@ -232,6 +232,10 @@ impl YieldTermStructure {
                 break;
             }
         }
+        // Flat beyond the last pillar.
+        let Some(second) = second else {
+            return first.zero_rate;
+        };
         if second == true_first {
             true_first.zero_rate
         } else {
-- 
2.43.0


From aad34f74577a471e23639f06739c29b86bdf47bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 15/44] fix: a lookup on a yield curve without pillars is an
 error, not a panic

---
 src/markets/termstructures/yieldcurve.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index b2913d0..0f7199a 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -251,6 +251,11 @@ impl YieldTermStructure {
         date: NaiveDate,
         interpolation_method_enum: &InterpolationMethodEnum,
     ) -> Result<f64> {
+        if self.stripped_curves.is_empty() {
+            return Err(Error::InvalidData(
+                "the yield curve has no pillars".to_string(),
+            ));
+        }
         Ok(match interpolation_method_enum {
             InterpolationMethodEnum::StepFunctionForward => {
                 self.step_function_forward_zero_rate(date)
-- 
2.43.0


From 279630a791d7bffbfb3fddf6b4021a948074f5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 16/44] fix: a failed caplet strip leaves the surface's
 valuation date alone

---
 src/markets/interestrate/volsurface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/markets/interestrate/volsurface.rs b/src/markets/interestrate/volsurface.rs
index 5c5f969..8c78f20 100644
--- a/src/markets/interestrate/volsurface.rs
+++ b/src/markets/interestrate/volsurface.rs
@@ -153,8 +153,8 @@ impl IRNormalVolSurface {
     /// Re-strip the surface from raw cap market quotes. Uses `yts` to compute
     /// forwards and discount factors.
     pub fn rebuild(&mut self, yts: &YieldTermStructure, md: &IRCapMarketData) -> Result<()> {
-        self.valuation_date = md.valuation_date;
         self.pillars = strip_caplet_vols(yts, md)?;
+        self.valuation_date = md.valuation_date;
         Ok(())
     }
 
-- 
2.43.0


From c4cda98c49ba44a689ae4f5da177ad94f010a0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 17/44] fix: a valuation error while stripping caplets is
 reported, not fed to the root finder as NaN

---
 src/markets/interestrate/volsurface.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/markets/interestrate/volsurface.rs b/src/markets/interestrate/volsurface.rs
index 8c78f20..4d1675a 100644
--- a/src/markets/interestrate/volsurface.rs
+++ b/src/markets/interestrate/volsurface.rs
@@ -328,20 +328,27 @@ fn strip_one_strike(
         }
 
         let snapshot = strip.clone();
+        let mut failure = None;
         let mut residual = |trial_sigma: f64| -> f64 {
             match price_cap_with_strip(yts, valuation_date, quote, &snapshot, trial_sigma) {
                 Ok(npv) => npv - quote.market_npv,
-                Err(_) => f64::NAN,
+                Err(e) => {
+                    failure.get_or_insert(e);
+                    f64::NAN
+                }
             }
         };
 
-        let sigma = find_root_brent(1.0e-5_f64, 0.10_f64, &mut residual, &mut convergency)
-            .map_err(|e| {
-                Error::InvalidData(format!(
-                    "caplet vol stripping failed at strike {} / expiry {}: {:?}",
-                    quote.strike, last_start, e
-                ))
-            })?;
+        let root = find_root_brent(1.0e-5_f64, 0.10_f64, &mut residual, &mut convergency);
+        if let Some(e) = failure {
+            return Err(e);
+        }
+        let sigma = root.map_err(|e| {
+            Error::InvalidData(format!(
+                "caplet vol stripping failed at strike {} / expiry {}: {:?}",
+                quote.strike, last_start, e
+            ))
+        })?;
 
         strip.push(StripPoint {
             expiry: last_start,
-- 
2.43.0


From 7d6801020b218783bb0925be584ff0255bf59195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 18/44] fix: the closest pillar to a date past the curve is the
 last one, not the first

---
 src/markets/termstructures/yieldcurve.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 0f7199a..80dd38b 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -53,7 +53,8 @@ pub trait InterestRateQuote {
         target_date: NaiveDate,
     ) -> &'termstructure StrippedCurve {
         let mut first = stripped_curves.first().unwrap();
-        let mut second = stripped_curves.first().unwrap();
+        // Past the last pillar, the last one is the closest.
+        let mut second = stripped_curves.last().unwrap();
         for stripped_curve in stripped_curves {
             if stripped_curve.first_settle_date < target_date && stripped_curve.date >= target_date
             {
-- 
2.43.0


From bdf6c8ffa24a34dae6ccf0d980b11afa01bea2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 19/44] fix: a first future maturing on the last deposit's date
 no longer strips an infinite zero rate

---
 src/markets/termstructures/yieldcurve/ratehelper.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/markets/termstructures/yieldcurve/ratehelper.rs b/src/markets/termstructures/yieldcurve/ratehelper.rs
index 8e4163f..8020d8f 100644
--- a/src/markets/termstructures/yieldcurve/ratehelper.rs
+++ b/src/markets/termstructures/yieldcurve/ratehelper.rs
@@ -61,7 +61,11 @@ impl FuturesRate {
         }
         let target_discount = self.discount(valuation_date, stripped_curves)?;
         let maturity_date = self.maturity_date(valuation_date)?;
-        let zero_rate = if is_first {
+        // There is no period left to strip when the contract matures on the last pillar.
+        let on_last_pillar = stripped_curves
+            .last()
+            .is_some_and(|last| last.date == maturity_date);
+        let zero_rate = if is_first && !on_last_pillar {
             let mut cum_discount = 1f64;
             for i in 0..stripped_curves.len() {
                 let accrual_start_date = if i == 0 {
-- 
2.43.0


From f3e5900a1a95d8da48254ae445b88d881f9b0bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 20/44] fix: interpolating after a hidden pillar on the same
 date no longer divides by zero

---
 src/markets/termstructures/yieldcurve.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 80dd38b..2f938f7 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -237,8 +237,9 @@ impl YieldTermStructure {
         let Some(second) = second else {
             return first.zero_rate;
         };
-        if second == true_first {
-            true_first.zero_rate
+        // A hidden pillar on the same date leaves nothing to interpolate.
+        if second == true_first || second.date == first.date {
+            second.zero_rate
         } else {
             let d1 = (target_date - first.date).num_days() as f64;
             let d2 = (second.date - target_date).num_days() as f64;
-- 
2.43.0


From 8fe71f0aca77c804c8135e93a8218e0a23cc8d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 21/44] fix: FX spot, TN and SN dates count the settlement lag
 in business days

---
 src/time/period.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/time/period.rs b/src/time/period.rs
index d2f0fe9..8457afb 100644
--- a/src/time/period.rs
+++ b/src/time/period.rs
@@ -54,7 +54,8 @@ impl Period {
     /// | `SN`  | T+2       | T+3          |
     /// | rest  | T+2       | spot + tenor |
     ///
-    /// The result is rolled forward to the next business day (following convention)
+    /// The base date is counted in business days of the calendar. The result is rolled
+    /// forward to the next business day (following convention)
     /// and capped at end-of-month when the unadjusted date falls on or after it.
     ///
     /// For pairs with a non-standard spot lag (e.g. USDCAD at T+1), use
@@ -100,13 +101,10 @@ impl Period {
         calendar: &dyn Calendar,
         spot_lag: i64,
     ) -> Result<NaiveDate> {
-        let spot_offset = Duration::try_days(spot_lag).ok_or_else(|| {
-            Error::PeriodOutOfBounds(format!("{spot_lag} spot lag is out of bounds"))
-        })?;
         let target_date = match self {
             Period::ON => valuation_date,
-            Period::TN => valuation_date + ONE_DAY,
-            _ => valuation_date + spot_offset,
+            Period::TN => add_business_days(valuation_date, 1, calendar),
+            _ => add_business_days(valuation_date, spot_lag, calendar),
         };
         let mut settlement_date = (target_date + *self)?;
         if settlement_date >= calendar.end_of_month(settlement_date) {
@@ -125,13 +123,10 @@ impl Period {
         calendar: &dyn Calendar,
         spot_lag: i64,
     ) -> Result<Option<NaiveDate>> {
-        let spot_offset = Duration::try_days(spot_lag).ok_or_else(|| {
-            Error::PeriodOutOfBounds(format!("{spot_lag} spot lag is out of bounds"))
-        })?;
         let raw = match self {
             Period::ON => Some(valuation_date),
-            Period::TN => Some(valuation_date + ONE_DAY),
-            Period::SN => Some(valuation_date + spot_offset),
+            Period::TN => Some(add_business_days(valuation_date, 1, calendar)),
+            Period::SN => Some(add_business_days(valuation_date, spot_lag, calendar)),
             _ => None,
         };
         match raw {
@@ -146,6 +141,18 @@ impl Period {
     }
 }
 
+/// T+n: the n-th business day after `date`.
+fn add_business_days(date: NaiveDate, n: i64, calendar: &dyn Calendar) -> NaiveDate {
+    let mut result = date;
+    for _ in 0..n {
+        result += ONE_DAY;
+        while !calendar.is_business_day(result) {
+            result += ONE_DAY;
+        }
+    }
+    result
+}
+
 impl Add<Period> for NaiveDate {
     type Output = Result<NaiveDate>;
 
-- 
2.43.0


From edd52ce1f9fc567c02a7ac309205dc96fa6724ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 22/44] fix: the end-of-month cap of FX tenors does not apply
 to ON, TN, SPOT and SN

---
 src/time/period.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/time/period.rs b/src/time/period.rs
index 8457afb..32df17a 100644
--- a/src/time/period.rs
+++ b/src/time/period.rs
@@ -56,7 +56,8 @@ impl Period {
     ///
     /// The base date is counted in business days of the calendar. The result is rolled
     /// forward to the next business day (following convention)
-    /// and capped at end-of-month when the unadjusted date falls on or after it.
+    /// and, for forward tenors, capped at end-of-month when the unadjusted date falls on or
+    /// after it.
     ///
     /// For pairs with a non-standard spot lag (e.g. USDCAD at T+1), use
     /// `FXUnderlying::settlement_date` instead, which applies the pair's convention.
@@ -107,7 +108,10 @@ impl Period {
             _ => add_business_days(valuation_date, spot_lag, calendar),
         };
         let mut settlement_date = (target_date + *self)?;
-        if settlement_date >= calendar.end_of_month(settlement_date) {
+        // The end-of-month cap belongs to forward tenors: a one-day swap over the month end
+        // would otherwise settle its far leg on (or before) its near leg.
+        let capped = !matches!(self, Period::ON | Period::TN | Period::SPOT | Period::SN);
+        if capped && settlement_date >= calendar.end_of_month(settlement_date) {
             settlement_date = calendar.end_of_month(settlement_date)
         }
         while !calendar.is_business_day(settlement_date) {
-- 
2.43.0


From 03238d2deb68997d20196649593bc9aedd682232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 23/44] fix: a market context from raw quotes dates its forward
 ladder by the pair's spot lag

---
 src/markets/forex/market_context.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/markets/forex/market_context.rs b/src/markets/forex/market_context.rs
index 6e2f5c2..cc01fe0 100644
--- a/src/markets/forex/market_context.rs
+++ b/src/markets/forex/market_context.rs
@@ -41,6 +41,7 @@
 //!      └─ Simulator::from_market(&ctx)                       ← MC paths
 //! ```
 
+use crate::derivatives::forex::basic::FXUnderlying;
 use crate::error::{Error, Result};
 use crate::markets::forex::quotes::forwardpoints::{FXForwardHelper, FXForwardQuote};
 use crate::markets::forex::quotes::volsurface::{FXDeltaVolPillar, FXVolQuote, FXVolSurface};
@@ -140,7 +141,11 @@ impl FxMarketContext {
             valuation_date,
             foreign_ir.get_stripped_curve()?,
         );
-        let forwards = FXForwardHelper::new(valuation_date, spot, fx_forward_quotes);
+        // The pair's own spot lag dates the ladder; unknown pairs settle T+2.
+        let forwards = match underlying_of(pair) {
+            Some(asset) => asset.forward_helper(valuation_date, spot, fx_forward_quotes),
+            None => FXForwardHelper::new(valuation_date, spot, fx_forward_quotes),
+        };
         let vol_surface = FXVolSurface::new(valuation_date, vol_pillars)?;
         Ok(Self::new(
             valuation_date,
@@ -229,6 +234,11 @@ impl FxMarketContext {
     }
 }
 
+/// The quoted underlying of a `(domestic, foreign)` pair, if it is a supported one.
+fn underlying_of(pair: (Currency, Currency)) -> Option<FXUnderlying> {
+    format!("{}{}", pair.1.code(), pair.0.code()).parse().ok()
+}
+
 /// One-pillar flat-10%-vol surface — shared helper used by the
 /// `for_linear` constructor and by tests that need a placeholder
 /// surface. Includes a symmetric 25Δ put/call pair so
-- 
2.43.0


From 998d799fdae86f6454bf5f5dd41105cfd5f106b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 24/44] fix: FxMarketContext::forward_at returns the outright
 forward, not the raw points

---
 src/markets/forex/market_context.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/markets/forex/market_context.rs b/src/markets/forex/market_context.rs
index cc01fe0..bca8b21 100644
--- a/src/markets/forex/market_context.rs
+++ b/src/markets/forex/market_context.rs
@@ -163,12 +163,18 @@ impl FxMarketContext {
     /// settlement calendar for the pair (typically the joint
     /// domestic/foreign calendar).
     pub fn forward_at(&self, date: NaiveDate, calendar: &dyn Calendar) -> Result<f64> {
-        self.forwards.get_forward(date, calendar)?.ok_or_else(|| {
+        let points = self.forwards.get_forward(date, calendar)?.ok_or_else(|| {
             Error::InvalidData(format!(
                 "FxMarketContext.forward_at({}): outside forward range ({} → ...)",
                 date, self.valuation_date,
             ))
-        })
+        })?;
+        let converter = match underlying_of(self.pair) {
+            Some(asset) => asset.forward_points_converter(),
+            None if self.pair.0 == Currency::JPY => 100.0,
+            None => 10_000.0,
+        };
+        Ok(self.spot + points / converter)
     }
 
     /// Domestic zero rate via step-function-forward interpolation.
-- 
2.43.0


From eb8923c578502fae8c1dc20e9a655228510b4262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 25/44] fix: delta and gamma of an FX option with a domestic
 notional are in base currency

---
 src/derivatives/forex/option.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/derivatives/forex/option.rs b/src/derivatives/forex/option.rs
index c1f96a5..d9e61e2 100644
--- a/src/derivatives/forex/option.rs
+++ b/src/derivatives/forex/option.rs
@@ -141,6 +141,15 @@ impl FXVanillaOption {
     fn direction_sign(&self) -> f64 {
         self.basic_info.direction as i8 as f64
     }
+
+    /// Notional in the foreign (base) currency; a domestic notional exchanges at the strike.
+    fn base_notional(&self) -> f64 {
+        if self.notional_currency == self.asset.frn_currency() {
+            self.notional_amounts
+        } else {
+            self.notional_amounts / self.strike
+        }
+    }
 }
 
 impl FXDerivatives for FXVanillaOption {
@@ -185,7 +194,7 @@ impl FXDerivatives for FXVanillaOption {
         let ctx = self.bs_context(market)?;
         let omega = self.option_type.omega();
         let fwd_delta_per_unit = omega * cdf(omega * ctx.d1);
-        let delta = self.notional_amounts * self.direction_sign() * fwd_delta_per_unit;
+        let delta = self.base_notional() * self.direction_sign() * fwd_delta_per_unit;
         Ok(CurrencyValue {
             currency: self.asset.frn_currency(),
             value: delta,
@@ -200,7 +209,7 @@ impl FXDerivatives for FXVanillaOption {
             return Ok(0.0);
         }
         let gamma_per_unit = ctx.discount * pdf(ctx.d1) / (ctx.forward * ctx.sqrt_v);
-        Ok(self.notional_amounts * self.direction_sign() * gamma_per_unit)
+        Ok(self.base_notional() * self.direction_sign() * gamma_per_unit)
     }
 
     /// Black-Scholes vega per **1 % change** in volatility, converted to the
-- 
2.43.0


From bb2594c74b18ad749e550bd5f09feffbb24534b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 26/44] fix: the effective FX valuation date no longer runs
 backwards over weekends and holidays

---
 src/derivatives/forex/basic.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/derivatives/forex/basic.rs b/src/derivatives/forex/basic.rs
index 6d840c5..d2db8b3 100644
--- a/src/derivatives/forex/basic.rs
+++ b/src/derivatives/forex/basic.rs
@@ -178,23 +178,25 @@ impl FXUnderlying {
     /// Effective valuation date after applying the pair's cut-off time.
     ///
     /// If `market_data_time` (UTC) is at or after `cutoff_utc`, the effective
-    /// valuation date advances to the next business day on the pair's calendar.
+    /// valuation date advances to the next business day on the pair's calendar; on a
+    /// weekend or holiday it is that next business day throughout, so it never runs
+    /// backwards while time advances.
     /// Pass this date to `settlement_date` / `near_date` / `forward_helper`.
     pub fn effective_valuation_date(
         &self,
         valuation_date: NaiveDate,
         market_data_time: NaiveTime,
     ) -> NaiveDate {
-        if market_data_time >= self.cutoff_utc() {
-            let cal = self.calendar();
-            let mut next = valuation_date + Duration::days(1);
-            while !cal.is_business_day(next) {
-                next += Duration::days(1);
-            }
-            next
+        let cal = self.calendar();
+        let mut effective = if market_data_time >= self.cutoff_utc() {
+            valuation_date + Duration::days(1)
         } else {
             valuation_date
+        };
+        while !cal.is_business_day(effective) {
+            effective += Duration::days(1);
         }
+        effective
     }
 
     /// Far-leg settlement date for this pair's spot convention.
-- 
2.43.0


From e3832adf3e862adb3c90492c6af3d0a698a2b79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 27/44] fix: swap, cap and cap-quote values exclude flows paid
 before the valuation date

---
 src/derivatives/interestrate/cap.rs    | 7 ++++++-
 src/derivatives/interestrate/swap.rs   | 9 +++++----
 src/markets/interestrate/volsurface.rs | 6 +++++-
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/derivatives/interestrate/cap.rs b/src/derivatives/interestrate/cap.rs
index b756973..6dd9a4d 100644
--- a/src/derivatives/interestrate/cap.rs
+++ b/src/derivatives/interestrate/cap.rs
@@ -100,7 +100,12 @@ impl CapFloor {
         vol_shift_bp: f64,
     ) -> Result<f64> {
         let mut pv = 0.0_f64;
-        for period in &self.schedule {
+        // Caplets paid before the valuation date are no longer part of the value.
+        let live = self
+            .schedule
+            .iter()
+            .filter(|p| p.pay_date >= self.valuation_date);
+        for period in live {
             let m = self.caplet_market(period, yts, vs, rate_shift_bp, vol_shift_bp)?;
             let opt = match self.kind {
                 CapFloorKind::Cap => bachelier_call(m.forward, self.strike, m.variance),
diff --git a/src/derivatives/interestrate/swap.rs b/src/derivatives/interestrate/swap.rs
index d60ceb6..d507e04 100644
--- a/src/derivatives/interestrate/swap.rs
+++ b/src/derivatives/interestrate/swap.rs
@@ -310,14 +310,15 @@ impl InterestRateSwap {
                 Direction::Buy => 1f64,
                 Direction::Sell => -1f64,
             };
-            for period in &schedule {
+            // Flows paid before the valuation date are no longer part of the value.
+            for period in schedule.iter().filter(|p| p.pay_date >= valuation_date) {
                 let cashflow = self.calculate_period_cashflow(period, leg, yield_term_structure)?;
                 total_npv += cashflow.present_value.unwrap();
             }
             // Bond-style valuation: return of notional on the final pay date.
             // For matched-notional IRS the principals cancel in the net NPV,
             // but this term makes per-leg NPVs match expected values.
-            if let Some(last) = schedule.last() {
+            if let Some(last) = schedule.last().filter(|p| p.pay_date >= valuation_date) {
                 let df_last = yield_term_structure.discount(
                     last.pay_date,
                     &InterpolationMethodEnum::PiecewiseLinearContinuous,
@@ -417,7 +418,7 @@ impl InterestRateSwap {
                 Direction::Buy => 1.0_f64,
                 Direction::Sell => -1.0_f64,
             };
-            for period in &schedule {
+            for period in schedule.iter().filter(|p| p.pay_date >= valuation_date) {
                 let year_fraction = leg
                     .schedule_detail
                     .day_counter
@@ -439,7 +440,7 @@ impl InterestRateSwap {
             // Bond-style return of notional on the final pay date so
             // per-leg NPVs match expected values; matched-notional IRS
             // have the two legs' principals cancel.
-            if let Some(last) = schedule.last() {
+            if let Some(last) = schedule.last().filter(|p| p.pay_date >= valuation_date) {
                 let df_last = yts.shifted_discount(last.pay_date, method, rate_shift_bp)?;
                 total_npv += last.balance * df_last * direction_sign;
             }
diff --git a/src/markets/interestrate/volsurface.rs b/src/markets/interestrate/volsurface.rs
index 4d1675a..4a4bd70 100644
--- a/src/markets/interestrate/volsurface.rs
+++ b/src/markets/interestrate/volsurface.rs
@@ -372,7 +372,11 @@ fn price_cap_with_strip(
     let mut npv = 0.0_f64;
     let dir_sign = quote.direction as i8 as f64;
 
-    for period in &quote.schedule {
+    for period in quote
+        .schedule
+        .iter()
+        .filter(|p| p.pay_date >= valuation_date)
+    {
         let sigma = caplet_sigma_for_start(period.accrual_start_date, strip, trial_sigma);
 
         let yf_start = vol_time.year_fraction(valuation_date, period.accrual_start_date)?;
-- 
2.43.0


From 90c508e33e0c24390aed86a503a65ac3b2c0f19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:23 +0000
Subject: [PATCH 28/44] =?UTF-8?q?fix:=20time-dependent=20SABR=20applies=20?=
 =?UTF-8?q?the=20=CE=B1=20schedule=20to=20the=20forward=20diffusion?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The simulator looked up α(t) at every step but only ever used α(0): the
state's volatility was never moved to the next segment's level, so a
calibrated schedule with a changing α was simulated at its first value
(ATM 13.3% instead of the effective 11.3% for α = 15% then 10%). The state
now carries α(0)·ξ and the forward diffuses with α(t)·ξ; flat schedules are
unchanged bit for bit.
---
 src/models/forex/sabr_time_dependent.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/models/forex/sabr_time_dependent.rs b/src/models/forex/sabr_time_dependent.rs
index 3d04e83..437cf0d 100644
--- a/src/models/forex/sabr_time_dependent.rs
+++ b/src/models/forex/sabr_time_dependent.rs
@@ -150,17 +150,15 @@ impl TimeDependentSabrSimulator {
         let f = state.forward.max(0.0);
         let alpha = state.vol.max(0.0);
 
-        // Full-truncation Euler on F.
-        let diffusion_f = alpha * f.powf(p.beta) * dw_f;
+        // Full-truncation Euler on F. `state.vol` carries `α(0)·ξ(t)`, with
+        // ξ the unit lognormal driver, so the volatility in force at `t_mid`
+        // is `α(t_mid)·ξ`. Flat schedules keep the ratio at exactly one and
+        // reduce to constant-param SABR.
+        let alpha_ratio = p.alpha / self.params.alpha.at(0.0);
+        let diffusion_f = alpha_ratio * alpha * f.powf(p.beta) * dw_f;
         let new_forward = (f + diffusion_f).max(0.0);
 
-        // Log-Euler on vol. Note: the "α" scale inside `p` is the
-        // *schedule-instantaneous* α, which multiplies the forward
-        // diffusion directly. The stochastic volatility driver itself
-        // has vol-of-vol ν(t) and evolves `α(t)·ξ(t)` where ξ is a
-        // unit-variance lognormal martingale. We track the product
-        // directly in `state.vol` so the scheme reduces cleanly to
-        // constant-param SABR when schedules are flat.
+        // Log-Euler on the driver ξ, with vol-of-vol ν(t).
         let log_drift = -0.5 * p.nu * p.nu * dt;
         let log_diffusion = p.nu * dw_a;
         let new_vol = alpha * (log_drift + log_diffusion).exp();
-- 
2.43.0


From bcf00d4eeb5c4192d537868418296728b0e14f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 29/44] fix: FMM period bookkeeping starts at the tenor date,
 not a step later
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

η(t) assigns a tenor date to the period it ends, so on a grid holding the
tenor dates x_k skipped the first step of its period (always for k = 1) and
R_k(T_{k-1}), Y_{k,k}(T_{k-1}) were captured one step late: the bank account
inside a period kept the undiversified shock of that step. Both simulators
now use the period a time has entered, which also covers T_0 > 0.
---
 src/models/forex/fx_fmm_simulator.rs | 39 +++++++++-----------
 src/models/interestrate/fmm.rs       | 53 +++++++++++++++-------------
 2 files changed, 46 insertions(+), 46 deletions(-)

diff --git a/src/models/forex/fx_fmm_simulator.rs b/src/models/forex/fx_fmm_simulator.rs
index 79bc89e..0d222dc 100644
--- a/src/models/forex/fx_fmm_simulator.rs
+++ b/src/models/forex/fx_fmm_simulator.rs
@@ -255,25 +255,20 @@ impl FxFmmSimulator {
         }
 
         // --- x_k(t) inside-period evolution (both sides) -------------------
-        if eta_old >= 1 && eta_old <= m {
-            let k = eta_old;
-            let tk_minus_1 = tenor.dates[k - 1];
-            let tk = tenor.dates[k];
-            if t > tk_minus_1 && t < tk {
-                let tau_k = tenor.tau(k);
-                let g_k = 1.0 / tau_k; // linear decay
-                let r_d_mid = 0.5 * (state.rates_d[k - 1] + new_rates_d[k - 1]);
-                let sig_d = side_adapted_vol(&p.domestic, k, r_d_mid);
-                let y_k_d = state.y_diag_d[k - 1] - state.y_at_start_d[k - 1];
-                state.x_active_d +=
-                    g_k * y_k_d * dt + sig_d / (r_d_mid + 1.0 / tau_k) * dw_d[k - 1];
-
-                let r_f_mid = 0.5 * (state.rates_f[k - 1] + new_rates_f[k - 1]);
-                let sig_f = side_adapted_vol(&p.foreign, k, r_f_mid);
-                let y_k_f = state.y_diag_f[k - 1] - state.y_at_start_f[k - 1];
-                state.x_active_f +=
-                    g_k * y_k_f * dt + sig_f / (r_f_mid + 1.0 / tau_k) * dw_f[k - 1];
-            }
+        let period_old = tenor.entered_period(t);
+        if period_old >= 1 && period_old <= m {
+            let k = period_old;
+            let tau_k = tenor.tau(k);
+            let g_k = 1.0 / tau_k; // linear decay
+            let r_d_mid = 0.5 * (state.rates_d[k - 1] + new_rates_d[k - 1]);
+            let sig_d = side_adapted_vol(&p.domestic, k, r_d_mid);
+            let y_k_d = state.y_diag_d[k - 1] - state.y_at_start_d[k - 1];
+            state.x_active_d += g_k * y_k_d * dt + sig_d / (r_d_mid + 1.0 / tau_k) * dw_d[k - 1];
+
+            let r_f_mid = 0.5 * (state.rates_f[k - 1] + new_rates_f[k - 1]);
+            let sig_f = side_adapted_vol(&p.foreign, k, r_f_mid);
+            let y_k_f = state.y_diag_f[k - 1] - state.y_at_start_f[k - 1];
+            state.x_active_f += g_k * y_k_f * dt + sig_f / (r_f_mid + 1.0 / tau_k) * dw_f[k - 1];
         }
 
         // --- Commit --------------------------------------------------------
@@ -284,9 +279,9 @@ impl FxFmmSimulator {
         state.t += dt;
 
         // --- Period-crossing snapshots on both sides ----------------------
-        let eta_new = tenor.eta(state.t);
-        if eta_new > eta_old {
-            for k in (eta_old + 1)..=eta_new.min(m) {
+        let period_new = tenor.entered_period(state.t);
+        if period_new > period_old {
+            for k in (period_old + 1)..=period_new.min(m) {
                 state.rates_at_start_d[k - 1] = state.rates_d[k - 1];
                 state.rates_at_start_f[k - 1] = state.rates_f[k - 1];
                 state.y_at_start_d[k - 1] = state.y_diag_d[k - 1];
diff --git a/src/models/interestrate/fmm.rs b/src/models/interestrate/fmm.rs
index 48dd7c8..9dfa3ee 100644
--- a/src/models/interestrate/fmm.rs
+++ b/src/models/interestrate/fmm.rs
@@ -104,6 +104,13 @@ impl FmmTenor {
         }
         self.m() + 1
     }
+
+    /// Index of the application period `[T_{k−1}, T_k)` that `t` has entered:
+    /// `0` before `T_0`, `M + 1` from `T_M` on. Unlike [`Self::eta`], a tenor
+    /// date belongs to the period it starts.
+    pub(crate) fn entered_period(&self, t: f64) -> usize {
+        self.dates.iter().filter(|d| **d <= t).count()
+    }
 }
 
 /// Linear decay `γ_j(t) = (T_j − t)/τ_j` inside `[T_{j−1}, T_j]`, clamped
@@ -500,39 +507,37 @@ impl FmmSimulator {
             path.y_diag[j - 1] += integrand * effective_dt;
         }
 
-        // Evolve x_k(t) for the currently-active rate k = η_old via
-        // paper eq. (33): dx_k = g_k(t) y_k(t) dt + (σ_k·L_k)/(R_k+1/τ_k) dW_k.
-        // Only meaningful inside the period (t_{k-1} < t < T_k). The σ·L
+        // Evolve x_k(t) for the rate k whose application period `t` has
+        // entered, via paper eq. (33):
+        // dx_k = g_k(t) y_k(t) dt + (σ_k·L_k)/(R_k+1/τ_k) dW_k.
+        // Only meaningful inside the period (T_{k-1} ≤ t < T_k). The σ·L
         // prefactor picks up whatever vol schedule / displacement is set
         // on the model.
-        if eta_old >= 1 && eta_old <= m {
-            let k = eta_old;
-            let tk_minus_1 = self.model.tenor.dates[k - 1];
-            let tk = self.model.tenor.dates[k];
-            if t > tk_minus_1 && t < tk {
-                let tau_k = self.model.tenor.tau(k);
-                let r_k_mid = 0.5 * (path.rates[k - 1] + new_rates[k - 1]);
-                let sig_adapt_k = self.model.adapted_vol(k, t_mid, r_k_mid);
-                // For linear decay γ_k(t) = (T_k − t)/τ_k, g_k = 1/τ_k.
-                let g_k = 1.0 / tau_k;
-                let y_k = path.y_diag[k - 1] - path.y_at_start[k - 1];
-                let drift_x = g_k * y_k;
-                let diffusion_x = sig_adapt_k / (r_k_mid + 1.0 / tau_k) * dw[k - 1];
-                path.x_active += drift_x * dt + diffusion_x;
-            }
+        let period_old = self.model.tenor.entered_period(t);
+        if period_old >= 1 && period_old <= m {
+            let k = period_old;
+            let tau_k = self.model.tenor.tau(k);
+            let r_k_mid = 0.5 * (path.rates[k - 1] + new_rates[k - 1]);
+            let sig_adapt_k = self.model.adapted_vol(k, t_mid, r_k_mid);
+            // For linear decay γ_k(t) = (T_k − t)/τ_k, g_k = 1/τ_k.
+            let g_k = 1.0 / tau_k;
+            let y_k = path.y_diag[k - 1] - path.y_at_start[k - 1];
+            let drift_x = g_k * y_k;
+            let diffusion_x = sig_adapt_k / (r_k_mid + 1.0 / tau_k) * dw[k - 1];
+            path.x_active += drift_x * dt + diffusion_x;
         }
 
         path.rates = new_rates;
         path.t += dt;
 
-        // Period-crossing snapshots: if we just crossed T_{k−1} (the
+        // Period-crossing snapshots: if we just reached T_{k−1} (the
         // start of rate k's application period), capture R_k and Y_{k,k}
         // at that moment and reset x_active so the front-stub formula
-        // reads the correct reference values. (For k = 1 the snapshot
-        // is set in `initial_path` already — t crosses T_0 = 0 trivially.)
-        let eta_new = self.model.tenor.eta(path.t);
-        if eta_new > eta_old {
-            for k in (eta_old + 1)..=eta_new.min(m) {
+        // reads the correct reference values. (For T_0 = 0 the k = 1
+        // snapshot is set in `initial_path` already.)
+        let period_new = self.model.tenor.entered_period(path.t);
+        if period_new > period_old {
+            for k in (period_old + 1)..=period_new.min(m) {
                 path.rates_at_start[k - 1] = path.rates[k - 1];
                 path.y_at_start[k - 1] = path.y_diag[k - 1];
                 path.x_active = 0.0;
-- 
2.43.0


From a1e2e9b02e6202f9d3ad5ea096f9cff40c53f7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 30/44] fix: FMM x_k increments use the volatility at the
 step's start

The diffusion of x_k was evaluated at the mean of the old and new rate,
which contains the step's own shock: a Stratonovich sum in place of the Ito
integral of eq. (33), so bonds and the bank account inside a period were
biased however fine the grid.
---
 src/models/forex/fx_fmm_simulator.rs | 13 +++++++------
 src/models/interestrate/fmm.rs       |  7 ++++---
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/models/forex/fx_fmm_simulator.rs b/src/models/forex/fx_fmm_simulator.rs
index 0d222dc..3a011f4 100644
--- a/src/models/forex/fx_fmm_simulator.rs
+++ b/src/models/forex/fx_fmm_simulator.rs
@@ -260,15 +260,16 @@ impl FxFmmSimulator {
             let k = period_old;
             let tau_k = tenor.tau(k);
             let g_k = 1.0 / tau_k; // linear decay
-            let r_d_mid = 0.5 * (state.rates_d[k - 1] + new_rates_d[k - 1]);
-            let sig_d = side_adapted_vol(&p.domestic, k, r_d_mid);
+            // Itô increments: the volatilities are taken at the step's start.
+            let sig_d = adapted_d[k - 1];
             let y_k_d = state.y_diag_d[k - 1] - state.y_at_start_d[k - 1];
-            state.x_active_d += g_k * y_k_d * dt + sig_d / (r_d_mid + 1.0 / tau_k) * dw_d[k - 1];
+            state.x_active_d +=
+                g_k * y_k_d * dt + sig_d / (state.rates_d[k - 1] + 1.0 / tau_k) * dw_d[k - 1];
 
-            let r_f_mid = 0.5 * (state.rates_f[k - 1] + new_rates_f[k - 1]);
-            let sig_f = side_adapted_vol(&p.foreign, k, r_f_mid);
+            let sig_f = adapted_f[k - 1];
             let y_k_f = state.y_diag_f[k - 1] - state.y_at_start_f[k - 1];
-            state.x_active_f += g_k * y_k_f * dt + sig_f / (r_f_mid + 1.0 / tau_k) * dw_f[k - 1];
+            state.x_active_f +=
+                g_k * y_k_f * dt + sig_f / (state.rates_f[k - 1] + 1.0 / tau_k) * dw_f[k - 1];
         }
 
         // --- Commit --------------------------------------------------------
diff --git a/src/models/interestrate/fmm.rs b/src/models/interestrate/fmm.rs
index 9dfa3ee..2b9df84 100644
--- a/src/models/interestrate/fmm.rs
+++ b/src/models/interestrate/fmm.rs
@@ -517,13 +517,14 @@ impl FmmSimulator {
         if period_old >= 1 && period_old <= m {
             let k = period_old;
             let tau_k = self.model.tenor.tau(k);
-            let r_k_mid = 0.5 * (path.rates[k - 1] + new_rates[k - 1]);
-            let sig_adapt_k = self.model.adapted_vol(k, t_mid, r_k_mid);
+            // Itô increment: the volatility is taken at the step's start.
+            let r_k = path.rates[k - 1];
+            let sig_adapt_k = adapted[k - 1];
             // For linear decay γ_k(t) = (T_k − t)/τ_k, g_k = 1/τ_k.
             let g_k = 1.0 / tau_k;
             let y_k = path.y_diag[k - 1] - path.y_at_start[k - 1];
             let drift_x = g_k * y_k;
-            let diffusion_x = sig_adapt_k / (r_k_mid + 1.0 / tau_k) * dw[k - 1];
+            let diffusion_x = sig_adapt_k / (r_k + 1.0 / tau_k) * dw[k - 1];
             path.x_active += drift_x * dt + diffusion_x;
         }
 
-- 
2.43.0


From 398ae60ff93034290854b2f1af1df58b2de2e44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:22 +0000
Subject: [PATCH 31/44] fix: FX-FMM shifts the foreign x_k by the quanto
 correction of R_f

x_k shares R_k's Brownian motion; under the domestic measure the foreign
one carries the Girsanov shift, which only the rates received.
---
 src/models/forex/fx_fmm_simulator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/models/forex/fx_fmm_simulator.rs b/src/models/forex/fx_fmm_simulator.rs
index 3a011f4..b8840dd 100644
--- a/src/models/forex/fx_fmm_simulator.rs
+++ b/src/models/forex/fx_fmm_simulator.rs
@@ -266,10 +266,12 @@ impl FxFmmSimulator {
             state.x_active_d +=
                 g_k * y_k_d * dt + sig_d / (state.rates_d[k - 1] + 1.0 / tau_k) * dw_d[k - 1];
 
+            // The foreign increment carries the same Girsanov shift as R_f.
             let sig_f = adapted_f[k - 1];
             let y_k_f = state.y_diag_f[k - 1] - state.y_at_start_f[k - 1];
+            let shifted_dw_f = dw_f[k - 1] - p.correlations.rho_xi_f[k - 1] * sqrt_sigma * dt;
             state.x_active_f +=
-                g_k * y_k_f * dt + sig_f / (state.rates_f[k - 1] + 1.0 / tau_k) * dw_f[k - 1];
+                g_k * y_k_f * dt + sig_f / (state.rates_f[k - 1] + 1.0 / tau_k) * shifted_dw_f;
         }
 
         // --- Commit --------------------------------------------------------
-- 
2.43.0


From 4063474e5a3a7d150d30a6fd2dc713f66303baca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 32/44] fix: ActualActual year fractions had inverted sign

---
 src/time/daycounters/actualactual.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/time/daycounters/actualactual.rs b/src/time/daycounters/actualactual.rs
index c7ab213..eaae728 100644
--- a/src/time/daycounters/actualactual.rs
+++ b/src/time/daycounters/actualactual.rs
@@ -25,8 +25,8 @@ impl ActualActual {
             let dib1 = if d1.leap_year() { 366f64 } else { 365f64 };
             let dib2 = if d2.leap_year() { 366f64 } else { 365f64 };
             let mut sum: f64 = (y2 - y1) as f64 - 1.0;
-            sum += (d1 - NaiveDate::from_ymd_opt(y1 + 1, 1, 1).unwrap()).num_days() as f64 / dib1;
-            sum += (NaiveDate::from_ymd_opt(y2, 1, 1).unwrap() - d2).num_days() as f64 / dib2;
+            sum += (NaiveDate::from_ymd_opt(y1 + 1, 1, 1).unwrap() - d1).num_days() as f64 / dib1;
+            sum += (d2 - NaiveDate::from_ymd_opt(y2, 1, 1).unwrap()).num_days() as f64 / dib2;
             sum
         }
     }
@@ -60,7 +60,7 @@ impl ActualActual {
                     den += 1.0;
                 }
             }
-            sum + (d1 - new_d2).num_days() as f64 / den
+            sum + (new_d2 - d1).num_days() as f64 / den
         }
     }
 }
-- 
2.43.0


From 0731280fe735eb7b46b3715ce2e6ad2e353de9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 33/44] fix: business_days_between counts the first day when
 include_first asks for it

---
 src/time/calendars.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index a1d4728..41646d2 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -323,9 +323,9 @@ pub trait Calendar: Debug {
         let include_last = include_last.unwrap_or(false);
         let mut day_count = 0;
         let day_diff = ((to + Duration::try_days(if include_last { 1 } else { 0 }).unwrap())
-            - (from + Duration::try_days(if include_first { 1 } else { 0 }).unwrap()))
+            - (from + Duration::try_days(if include_first { 0 } else { 1 }).unwrap()))
         .num_days();
-        for date in (from + Duration::try_days(if include_first { 1 } else { 0 }).unwrap())
+        for date in (from + Duration::try_days(if include_first { 0 } else { 1 }).unwrap())
             .iter_days()
             .take(day_diff.max(0) as usize)
         {
-- 
2.43.0


From 7880c9b706b5fbdb0305e6e4a4612c6e646fcfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 34/44] fix: Business252 counts each month once

---
 src/time/daycounters/business252.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/time/daycounters/business252.rs b/src/time/daycounters/business252.rs
index c6becb3..c42f4c1 100644
--- a/src/time/daycounters/business252.rs
+++ b/src/time/daycounters/business252.rs
@@ -27,8 +27,9 @@ impl DayCounters for Business252 {
             let mut d = (NaiveDate::from_ymd_opt(d1.year(), d1.month(), 1).unwrap() + Months(1))?;
             total += self.calendar.business_days_between(d1, d, None, None);
             while !self.same_month(d, d2) {
-                total += self.calendar.business_days_between(d, d2, None, None);
-                d = (d + Months(1))?;
+                let next = (d + Months(1))?;
+                total += self.calendar.business_days_between(d, next, None, None);
+                d = next;
             }
             total += self.calendar.business_days_between(d, d2, None, None);
             Ok(total)
-- 
2.43.0


From 1ecd8e6257e36bd69eaf2f5d8019f47c6805f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 35/44] fix: Actual/365 NoLeap counted December ten days too
 late

---
 src/time/daycounters/actual365fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/daycounters/actual365fixed.rs b/src/time/daycounters/actual365fixed.rs
index 19057c6..e9896e8 100644
--- a/src/time/daycounters/actual365fixed.rs
+++ b/src/time/daycounters/actual365fixed.rs
@@ -21,7 +21,7 @@ impl Actual365Fixed {
     }
 
     fn nl_day_count(&self, d1: NaiveDate, d2: NaiveDate) -> i64 {
-        const MONTH_OFFSET: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 344];
+        const MONTH_OFFSET: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
         let mut s1 =
             d1.day() as i64 + MONTH_OFFSET[d1.month() as usize - 1usize] + (d1.year() as i64 * 365);
         let mut s2 =
-- 
2.43.0


From a67647f43cd9242b7dccbe47e9fcf3c2586e2ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 36/44] fix: a calendar without a date to offer is an error,
 not a panic

---
 src/derivatives/interestrate/swap.rs          | 52 ++++++++-----------
 src/markets/interestrate/futures.rs           |  4 +-
 .../yieldcurve/oisratehelper.rs               |  5 +-
 src/time/calendars.rs                         | 10 +++-
 4 files changed, 34 insertions(+), 37 deletions(-)

diff --git a/src/derivatives/interestrate/swap.rs b/src/derivatives/interestrate/swap.rs
index d507e04..3e1c074 100644
--- a/src/derivatives/interestrate/swap.rs
+++ b/src/derivatives/interestrate/swap.rs
@@ -12,7 +12,7 @@ use crate::markets::termstructures::yieldcurve::{
     YieldTermStructure,
 };
 use crate::time::businessdayconvention::BusinessDayConvention;
-use crate::time::calendars::{Calendar, Target};
+use crate::time::calendars::{Calendar, Target, require_date};
 use crate::time::daycounters::DayCounters;
 use crate::time::daycounters::actual365fixed::Actual365Fixed;
 use crate::time::frequency::Frequency;
@@ -125,7 +125,7 @@ impl InterestRateSwapLeg {
         valuation_date: NaiveDate,
     ) -> Result<Vec<InterestRateSchedulePeriod>> {
         if self.schedule.is_empty() {
-            let effective_date = self.effective_date(valuation_date)?.unwrap();
+            let effective_date = require_date(self.effective_date(valuation_date)?)?;
 
             // TODO: amortisation
             let tenor_num = match self.schedule_detail.tenor {
@@ -146,37 +146,27 @@ impl InterestRateSwapLeg {
             let mut start_date = effective_date;
 
             for n in 1..(num + 1) {
-                let end_date = self
-                    .schedule_detail
-                    .calendar
-                    .advance(
-                        effective_date,
-                        (n) * self.schedule_detail.frequency.period().unwrap(),
-                        self.schedule_detail.convention,
-                        Some(self.interest_rate_index.end_of_month),
-                    )?
-                    .unwrap();
+                let end_date = require_date(self.schedule_detail.calendar.advance(
+                    effective_date,
+                    (n) * self.schedule_detail.frequency.period().unwrap(),
+                    self.schedule_detail.convention,
+                    Some(self.interest_rate_index.end_of_month),
+                )?)?;
                 let mut irs = InterestRateSchedulePeriod::new(
                     start_date,
                     end_date,
-                    self.schedule_detail
-                        .calendar
-                        .advance(
-                            end_date,
-                            Period::Days(self.schedule_detail.pay_delay),
-                            self.schedule_detail.convention,
-                            Some(false),
-                        )?
-                        .unwrap(),
-                    self.schedule_detail
-                        .calendar
-                        .advance(
-                            start_date,
-                            Period::Days(-self.schedule_detail.days_before_accrual),
-                            self.schedule_detail.convention,
-                            Some(false),
-                        )?
-                        .unwrap(),
+                    require_date(self.schedule_detail.calendar.advance(
+                        end_date,
+                        Period::Days(self.schedule_detail.pay_delay),
+                        self.schedule_detail.convention,
+                        Some(false),
+                    )?)?,
+                    require_date(self.schedule_detail.calendar.advance(
+                        start_date,
+                        Period::Days(-self.schedule_detail.days_before_accrual),
+                        self.schedule_detail.convention,
+                        Some(false),
+                    )?)?,
                     self.notional,
                     self.notional,
                 );
@@ -510,7 +500,7 @@ impl InterestRateQuote for InterestRateSwap {
         Ok(if self.legs.is_empty() {
             valuation_date
         } else {
-            self.legs[0].effective_date(valuation_date)?.unwrap()
+            require_date(self.legs[0].effective_date(valuation_date)?)?
         })
     }
 
diff --git a/src/markets/interestrate/futures.rs b/src/markets/interestrate/futures.rs
index 0d7d684..0b0c35c 100644
--- a/src/markets/interestrate/futures.rs
+++ b/src/markets/interestrate/futures.rs
@@ -3,7 +3,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::error::Result;
 use crate::time::businessdayconvention::BusinessDayConvention;
-use crate::time::calendars::{Calendar, Target};
+use crate::time::calendars::{Calendar, Target, require_date};
 use crate::time::daycounters::DayCounters;
 use crate::time::daycounters::actual365fixed::Actual365Fixed;
 use crate::time::imm::IMM;
@@ -39,7 +39,7 @@ impl InterestRateFutures {
                 self.convention,
                 Some(self.end_of_month),
             )
-            .map(Option::unwrap)?;
+            .and_then(require_date)?;
         Ok(IMM.next_date(
             NaiveDate::from_ymd_opt(target_date.year(), target_date.month(), 1).unwrap(),
             false,
diff --git a/src/markets/termstructures/yieldcurve/oisratehelper.rs b/src/markets/termstructures/yieldcurve/oisratehelper.rs
index cb8d5bb..ce3ea46 100644
--- a/src/markets/termstructures/yieldcurve/oisratehelper.rs
+++ b/src/markets/termstructures/yieldcurve/oisratehelper.rs
@@ -4,6 +4,7 @@ use serde::{Deserialize, Serialize};
 use crate::error::Result;
 use crate::markets::interestrate::interestrateindex::InterestRateIndex;
 use crate::markets::termstructures::yieldcurve::{InterestRateQuote, InterestRateQuoteEnum};
+use crate::time::calendars::require_date;
 use crate::time::daycounters::DayCounters;
 use crate::time::daycounters::actual365fixed::Actual365Fixed;
 use crate::time::period::Period;
@@ -50,7 +51,7 @@ impl InterestRateQuote for OISRate {
                 self.interest_rate_index.convention,
                 Some(self.interest_rate_index.end_of_month),
             )
-            .map(Option::unwrap) // TODO (DS): what should we do with None dates?
+            .and_then(require_date)
     }
     fn maturity_date(&self, valuation_date: NaiveDate) -> Result<NaiveDate> {
         self.interest_rate_index
@@ -61,7 +62,7 @@ impl InterestRateQuote for OISRate {
                 self.interest_rate_index.convention,
                 Some(self.interest_rate_index.end_of_month),
             )
-            .map(Option::unwrap) // TODO (DS): what should we do with None dates?
+            .and_then(require_date)
     }
 }
 
diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index 41646d2..b6ad1f6 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -2,7 +2,7 @@ use chrono::{Datelike, Duration, NaiveDate, Weekday};
 use std::cmp::Ordering;
 use std::fmt::Debug;
 
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::time::businessdayconvention::BusinessDayConvention;
 
 static EASTER_MONDAY: [u32; 299] = [
@@ -157,6 +157,11 @@ pub mod weekendsonly;
 use crate::time::period::{ONE_DAY, Period};
 pub use weekendsonly::WeekendsOnly;
 
+/// The date a calendar answered with, or an error if it has none.
+pub(crate) fn require_date(date: Option<NaiveDate>) -> Result<NaiveDate> {
+    date.ok_or_else(|| Error::InvalidData("the calendar has no date to offer".to_string()))
+}
+
 #[typetag::serde(tag = "type")]
 pub trait Calendar: Debug {
     fn naive_date_to_dkmy(&self, date: NaiveDate) -> (u32, Weekday, u32, i32, u32) {
@@ -270,7 +275,8 @@ pub trait Calendar: Debug {
             Period::Months(_) | Period::Years(_) => {
                 let advance_date = (date + period)?;
                 Ok(if end_of_month {
-                    Some(self.end_of_month(self.adjust(advance_date, bdc).unwrap()))
+                    self.adjust(advance_date, bdc)
+                        .map(|adjusted| self.end_of_month(adjusted))
                 } else {
                     self.adjust(advance_date, bdc)
                 })
-- 
2.43.0


From d6ab1fb2be28f1b78d633fc044cf1965340f0f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 37/44] fix: a swap leg whose frequency or tenor generates no
 schedule is an error, not a panic

---
 src/derivatives/interestrate/swap.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/derivatives/interestrate/swap.rs b/src/derivatives/interestrate/swap.rs
index 3e1c074..7b33670 100644
--- a/src/derivatives/interestrate/swap.rs
+++ b/src/derivatives/interestrate/swap.rs
@@ -140,15 +140,20 @@ impl InterestRateSwapLeg {
             };
 
             // TODO: need to consider if duration_num.rem_euclid(tenor_num) != 0;
-            let num = duration_num.div_euclid(tenor_num);
+            let num = duration_num.checked_div_euclid(tenor_num).ok_or_else(|| {
+                Error::InvalidData("swap leg has a tenor of length zero".to_string())
+            })?;
 
             let mut schedule = Vec::new();
             let mut start_date = effective_date;
 
             for n in 1..(num + 1) {
+                let period = self.schedule_detail.frequency.period().ok_or_else(|| {
+                    Error::InvalidData("swap leg's frequency has no period".to_string())
+                })?;
                 let end_date = require_date(self.schedule_detail.calendar.advance(
                     effective_date,
-                    (n) * self.schedule_detail.frequency.period().unwrap(),
+                    n * period,
                     self.schedule_detail.convention,
                     Some(self.interest_rate_index.end_of_month),
                 )?)?;
-- 
2.43.0


From 4e583d3707ff95289b9a82874129728f5b3e6ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 38/44] fix: the Nearest convention rolled to the holiday side

---
 src/time/calendars.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index b6ad1f6..4cddc6e 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -252,9 +252,9 @@ pub trait Calendar: Debug {
                 d2 -= ONE_DAY;
             }
             return if self.is_holiday(d1) {
-                Some(d1)
-            } else {
                 Some(d2)
+            } else {
+                Some(d1)
             };
         } else {
             return None;
-- 
2.43.0


From 8c82b4db4b81339fe4322b33eaa6961386cc21e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:47 +0000
Subject: [PATCH 39/44] fix: reject NaN strikes and non-finite forwards or vols
 in the FX vol surface

A NaN quote panicked in the strike sort; a zero ATM vol or an infinite forward
built a surface that answered NaN; a NaN strike was looked up.
---
 src/markets/forex/quotes/volsurface.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/markets/forex/quotes/volsurface.rs b/src/markets/forex/quotes/volsurface.rs
index f5196a3..4583de1 100644
--- a/src/markets/forex/quotes/volsurface.rs
+++ b/src/markets/forex/quotes/volsurface.rs
@@ -107,7 +107,7 @@ impl FXVolSurface {
     /// Implied volatility at `(expiry, strike)`. Between pillars the total
     /// variance `σ²·τ` is interpolated linearly in τ.
     pub fn volatility(&self, expiry: NaiveDate, strike: f64) -> Result<f64> {
-        if strike <= 0.0 {
+        if strike.is_nan() || strike <= 0.0 {
             return Err(Error::InvalidData(format!(
                 "strike must be positive, got {}",
                 strike
@@ -189,9 +189,9 @@ impl SmileSection {
                 pillar.expiry
             )));
         }
-        if pillar.forward <= 0.0 {
+        if !pillar.forward.is_finite() || pillar.forward <= 0.0 {
             return Err(Error::InvalidData(format!(
-                "volatility pillar {} has non-positive forward {}",
+                "volatility pillar {} needs a finite positive forward, got {}",
                 pillar.expiry, pillar.forward
             )));
         }
@@ -199,6 +199,20 @@ impl SmileSection {
         let f = pillar.forward;
 
         let (atm_vol, delta_pairs) = normalise_quotes(&pillar.quotes, pillar.expiry)?;
+        // RR/BF quotes can resolve to a wing vol that is no volatility even
+        // when each quote looks sane on its own.
+        for vol in delta_pairs
+            .iter()
+            .flat_map(|p| [p.call_vol, p.put_vol])
+            .chain([atm_vol])
+        {
+            if !vol.is_finite() || vol <= 0.0 {
+                return Err(Error::InvalidData(format!(
+                    "volatility pillar {} needs finite positive vols, got {}",
+                    pillar.expiry, vol
+                )));
+            }
+        }
         let sigma_ref = 1.5 * atm_vol;
 
         // 1) Each quoted pillar → (strike, vol) with that quote's own σ.
-- 
2.43.0


From df65f7f0012618af4509dd0f27110b6daa19d6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 40/44] fix: report a smile no effective SABR schedule reaches
 as an error, not a panic

The time-dependent SABR calibrator panicked on strips that are valid but
extreme (a vol quoted in percent): the effective parameters could not be
bracketed.
---
 src/models/forex/sabr_effective.rs            |  95 +++++++++----
 .../forex/sabr_time_dependent_calibrator.rs   | 133 +++++++++++-------
 2 files changed, 146 insertions(+), 82 deletions(-)

diff --git a/src/models/forex/sabr_effective.rs b/src/models/forex/sabr_effective.rs
index a9baf27..7ce8faf 100644
--- a/src/models/forex/sabr_effective.rs
+++ b/src/models/forex/sabr_effective.rs
@@ -43,6 +43,8 @@
 //! All of `E(c, Δ)` and the `(E(6γₖ², Δₖ) − E(γₖ², Δₖ))/(5γₖ²)` kernel
 //! need Taylor branches at `γₖ² → 0` to stay numerically stable.
 
+use crate::error::{Error, Result};
+
 /// Piecewise-constant scalar function on `[0, Tₙ]`. `values[k]` is the
 /// value on `(knots[k], knots[k+1]]`. `knots[0]` must be `0`.
 #[derive(Clone, Debug, PartialEq)]
@@ -235,11 +237,23 @@ fn rhs_at_gamma_tilde(gamma_tilde_sq: f64, expiry: f64, i_val: f64) -> f64 {
 /// Solves `RHS(γ̃²) = LHS` by bisection on `γ̃²` in `[0, γ̃²_max]`. For
 /// sane FX SABR parameters (`γ ≲ 2, Tᵢ ≲ 30`), `γ̃ ≤ 2` always; the
 /// bracket is widened adaptively if needed.
+///
+/// Panics where [`try_effective_vol_vol`] returns an error.
 pub fn effective_vol_vol(
     gamma: &PiecewiseConstant,
     omega1: &PiecewiseConstant,
     expiry: f64,
 ) -> f64 {
+    try_effective_vol_vol(gamma, omega1, expiry).unwrap_or_else(|e| panic!("{e}"))
+}
+
+/// [`effective_vol_vol`] with an error for schedules whose moments
+/// overflow, so that no `γ̃` solves Lemma 4.1 in floating point.
+pub fn try_effective_vol_vol(
+    gamma: &PiecewiseConstant,
+    omega1: &PiecewiseConstant,
+    expiry: f64,
+) -> Result<f64> {
     let (deltas, gs, os) = aligned_segments(gamma, omega1, expiry);
     let i_val = i_integral(&deltas, &gs, &os);
     let lhs = lhs_double_integral(&deltas, &gs, &os);
@@ -248,7 +262,7 @@ pub fn effective_vol_vol(
     // floor, γ̃ must be 0.
     let rhs_at_zero = 0.5 * i_val * i_val;
     if lhs <= rhs_at_zero * (1.0 + 1.0e-12) {
-        return 0.0;
+        return Ok(0.0);
     }
 
     // Bracket on γ̃²: [0, upper]. Start upper generously and double if
@@ -262,13 +276,14 @@ pub fn effective_vol_vol(
         f_hi = rhs_at_gamma_tilde(hi, expiry, i_val) - lhs;
         expansions += 1;
     }
-    assert!(
-        f_hi >= 0.0,
-        "effective γ̃ root not bracketed (LHS = {}, RHS({}) = {})",
-        lhs,
-        hi,
-        f_hi + lhs
-    );
+    if f_hi.is_nan() || f_hi < 0.0 {
+        return Err(Error::InvalidData(format!(
+            "effective γ̃ root not bracketed (LHS = {}, RHS({}) = {})",
+            lhs,
+            hi,
+            f_hi + lhs
+        )));
+    }
 
     // Bisection in γ̃² space. 60 iterations ≫ f64 precision on a bounded
     // monotone scalar root.
@@ -284,7 +299,7 @@ pub fn effective_vol_vol(
             break;
         }
     }
-    (0.5 * (lo + hi)).sqrt()
+    Ok((0.5 * (lo + hi)).sqrt())
 }
 
 /// Lemma 4.4 (variance-match form, paper eq. 15) — effective term
@@ -312,14 +327,26 @@ pub fn effective_vol_vol(
 ///
 /// The full Fourier-cosine recovery is therefore deferred to a follow-up
 /// (tracked in `FX_SABR_PLAN.md` Phase 2b+).
+///
+/// Panics where [`try_effective_term_structure`] returns an error.
 pub fn effective_term_structure(
     gamma: &PiecewiseConstant,
     omega1: &PiecewiseConstant,
     expiry: f64,
 ) -> f64 {
+    try_effective_term_structure(gamma, omega1, expiry).unwrap_or_else(|e| panic!("{e}"))
+}
+
+/// [`effective_term_structure`] with an error where
+/// [`try_effective_vol_vol`] has none to work from.
+pub fn try_effective_term_structure(
+    gamma: &PiecewiseConstant,
+    omega1: &PiecewiseConstant,
+    expiry: f64,
+) -> Result<f64> {
     let (deltas, gs, os) = aligned_segments(gamma, omega1, expiry);
     let i_val = i_integral(&deltas, &gs, &os);
-    let gamma_tilde = effective_vol_vol(gamma, omega1, expiry);
+    let gamma_tilde = try_effective_vol_vol(gamma, omega1, expiry)?;
     let x = gamma_tilde * gamma_tilde * expiry;
     // ω̃₁² = γ̃² · I / (e^x − 1). Use expm1 for the denominator and
     // switch to the limit ω̃₁² = I / Tᵢ as γ̃ → 0 (Taylor of the ratio).
@@ -329,14 +356,13 @@ pub fn effective_term_structure(
     } else {
         gamma_tilde * gamma_tilde * i_val / x.exp_m1()
     };
-    assert!(
-        omega_sq >= 0.0,
-        "ω̃₁² = {} (γ̃ = {}, I = {})",
-        omega_sq,
-        gamma_tilde,
-        i_val
-    );
-    omega_sq.sqrt()
+    if omega_sq.is_nan() || omega_sq < 0.0 {
+        return Err(Error::InvalidData(format!(
+            "ω̃₁² = {} (γ̃ = {}, I = {})",
+            omega_sq, gamma_tilde, i_val
+        )));
+    }
+    Ok(omega_sq.sqrt())
 }
 
 /// Lemma 4.6 — effective correlation `ρ̃` for expiry `Tᵢ`.
@@ -355,12 +381,25 @@ pub fn effective_term_structure(
 ///
 /// `gamma`, `omega1`, `rho` must share the same knot set; `expiry`
 /// must land on a knot.
+///
+/// Panics where [`try_effective_correlation`] returns an error.
 pub fn effective_correlation(
     gamma: &PiecewiseConstant,
     omega1: &PiecewiseConstant,
     rho: &PiecewiseConstant,
     expiry: f64,
 ) -> f64 {
+    try_effective_correlation(gamma, omega1, rho, expiry).unwrap_or_else(|e| panic!("{e}"))
+}
+
+/// [`effective_correlation`] with an error where the other two effective
+/// parameters have one, or where `ω₁` vanishes on a segment.
+pub fn try_effective_correlation(
+    gamma: &PiecewiseConstant,
+    omega1: &PiecewiseConstant,
+    rho: &PiecewiseConstant,
+    expiry: f64,
+) -> Result<f64> {
     assert_eq!(
         gamma.knots, rho.knots,
         "γ and ρ schedules must share the same knots"
@@ -372,23 +411,23 @@ pub fn effective_correlation(
     let mut integral = 0.0_f64;
     for k in 0..deltas.len() {
         let denom = os[k];
-        assert!(
-            denom.abs() > 1.0e-15,
-            "ω₁ must be non-zero on every segment (got {} at k={})",
-            denom,
-            k
-        );
+        if denom.is_nan() || denom.abs() <= 1.0e-15 {
+            return Err(Error::InvalidData(format!(
+                "ω₁ must be non-zero on every segment (got {} at k={})",
+                denom, k
+            )));
+        }
         integral += rs[k] * gs[k] / denom * deltas[k];
     }
-    let gamma_tilde = effective_vol_vol(gamma, omega1, expiry);
-    let omega_tilde = effective_term_structure(gamma, omega1, expiry);
+    let gamma_tilde = try_effective_vol_vol(gamma, omega1, expiry)?;
+    let omega_tilde = try_effective_term_structure(gamma, omega1, expiry)?;
     if gamma_tilde.abs() < 1.0e-15 {
         // γ̃ → 0 limit: ρ doesn't enter the smile because there's no
         // vanna skew to weight. Return 0 by convention — downstream
         // consumers (smile calibration) gate on γ̃ > 0 anyway.
-        return 0.0;
+        return Ok(0.0);
     }
-    (omega_tilde / (gamma_tilde * expiry)) * integral
+    Ok((omega_tilde / (gamma_tilde * expiry)) * integral)
 }
 
 #[cfg(test)]
diff --git a/src/models/forex/sabr_time_dependent_calibrator.rs b/src/models/forex/sabr_time_dependent_calibrator.rs
index 3ea25c1..a327aca 100644
--- a/src/models/forex/sabr_time_dependent_calibrator.rs
+++ b/src/models/forex/sabr_time_dependent_calibrator.rs
@@ -28,7 +28,7 @@
 //!
 //! [csabr]: crate::models::forex::sabr_calibrator::calibrate
 
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::math::optimize::NelderMeadOptions;
 use crate::models::common::calibration::{Calibration, CalibrationReport};
 use crate::models::forex::market_data::MarketSmileStrip;
@@ -37,7 +37,8 @@ use crate::models::forex::sabr_calibrator::{
     CalibrationTarget, calibrate as calibrate_sabr, targets_from_grid,
 };
 use crate::models::forex::sabr_effective::{
-    PiecewiseConstant, effective_correlation, effective_term_structure, effective_vol_vol,
+    PiecewiseConstant, try_effective_correlation, try_effective_term_structure,
+    try_effective_vol_vol,
 };
 use crate::models::forex::sabr_time_dependent::TimeDependentSabrParams;
 
@@ -79,6 +80,8 @@ pub struct TimeDependentCalibrationResult {
 /// * `stage1_options` — Nelder-Mead tuning for the per-pillar fits
 ///   (identical meaning to [`calibrate_sabr`][csabr]'s `options`).
 ///
+/// Panics where [`try_calibrate_time_dependent`] returns an error.
+///
 /// [csabr]: crate::models::forex::sabr_calibrator::calibrate
 pub fn calibrate_time_dependent(
     pillars: &[PillarTarget],
@@ -86,12 +89,26 @@ pub fn calibrate_time_dependent(
     forward_0: f64,
     stage1_options: NelderMeadOptions,
 ) -> TimeDependentCalibrationResult {
-    assert!(!pillars.is_empty(), "need at least one pillar");
-    for w in pillars.windows(2) {
-        assert!(
-            w[1].expiry > w[0].expiry,
-            "pillars must be sorted by expiry"
-        );
+    try_calibrate_time_dependent(pillars, beta, forward_0, stage1_options)
+        .unwrap_or_else(|e| panic!("{e}"))
+}
+
+/// [`calibrate_time_dependent`] with an error for pillars that are missing,
+/// out of order, or whose smiles no schedule of effective parameters
+/// reaches (a vol quoted in percent, say).
+pub fn try_calibrate_time_dependent(
+    pillars: &[PillarTarget],
+    beta: f64,
+    forward_0: f64,
+    stage1_options: NelderMeadOptions,
+) -> Result<TimeDependentCalibrationResult> {
+    if pillars.is_empty() {
+        return Err(Error::InvalidData("need at least one pillar".to_string()));
+    }
+    if pillars.windows(2).any(|w| w[1].expiry <= w[0].expiry) {
+        return Err(Error::InvalidData(
+            "pillars must be sorted by expiry".to_string(),
+        ));
     }
 
     // --- Stage 1: per-pillar constant-SABR fits ---------------------
@@ -143,9 +160,9 @@ pub fn calibrate_time_dependent(
             vs.push(x);
             PiecewiseConstant::new(knots[..=i + 1].to_vec(), vs)
         };
-        let f = |x: f64| -> f64 {
+        let f = |x: f64| -> Result<f64> {
             let sched = partial_nu(x);
-            effective_vol_vol(&sched, &omega_sched, pillars[i].expiry) - target
+            Ok(try_effective_vol_vol(&sched, &omega_sched, pillars[i].expiry)? - target)
         };
 
         // Bracket. Try widening if needed. `f` is monotone-increasing
@@ -153,20 +170,20 @@ pub fn calibrate_time_dependent(
         // schedule ⇒ larger effective γ̃).
         let lo = 1.0e-6_f64;
         let mut hi = (target * 2.0).max(0.1);
-        let mut f_hi = f(hi);
+        let mut f_hi = f(hi)?;
         let mut bumps = 0;
         while f_hi < 0.0 && bumps < 20 {
             hi *= 2.0;
-            f_hi = f(hi);
+            f_hi = f(hi)?;
             bumps += 1;
         }
-        assert!(
-            f_hi >= 0.0,
-            "stage-2 ν bracket for pillar {}: could not reach target ν̃ = {}",
-            i,
-            target
-        );
-        let nu_i = bisect(f, lo, hi, 1.0e-10, 80);
+        if f_hi.is_nan() || f_hi < 0.0 {
+            return Err(Error::InvalidData(format!(
+                "stage-2 ν bracket for pillar {}: could not reach target ν̃ = {}",
+                i, target
+            )));
+        }
+        let nu_i = bisect(f, lo, hi, 1.0e-10, 80)?;
         nu_values.push(nu_i);
     }
     let nu_sched = PiecewiseConstant::new(knots.clone(), nu_values.clone());
@@ -185,28 +202,28 @@ pub fn calibrate_time_dependent(
             PiecewiseConstant::new(knots[..=i + 1].to_vec(), vs)
         };
         let sub_nu = PiecewiseConstant::new(knots[..=i + 1].to_vec(), nu_values[..=i].to_vec());
-        let f = |x: f64| -> f64 {
+        let f = |x: f64| -> Result<f64> {
             let sched = partial_alpha(x);
-            effective_term_structure(&sub_nu, &sched, pillars[i].expiry) - target
+            Ok(try_effective_term_structure(&sub_nu, &sched, pillars[i].expiry)? - target)
         };
         // ω̃² is monotone in ω_i² (linear in ω_i² through I(Tᵢ)), so
         // monotone in ω_i.
         let lo = 1.0e-6_f64;
         let mut hi = (target * 4.0).max(0.5);
-        let mut f_hi = f(hi);
+        let mut f_hi = f(hi)?;
         let mut bumps = 0;
         while f_hi < 0.0 && bumps < 20 {
             hi *= 2.0;
-            f_hi = f(hi);
+            f_hi = f(hi)?;
             bumps += 1;
         }
-        assert!(
-            f_hi >= 0.0,
-            "stage-3 α bracket for pillar {}: could not reach target α̃ = {}",
-            i,
-            target
-        );
-        let alpha_i = bisect(f, lo, hi, 1.0e-10, 80);
+        if f_hi.is_nan() || f_hi < 0.0 {
+            return Err(Error::InvalidData(format!(
+                "stage-3 α bracket for pillar {}: could not reach target α̃ = {}",
+                i, target
+            )));
+        }
+        let alpha_i = bisect(f, lo, hi, 1.0e-10, 80)?;
         alpha_values.push(alpha_i);
     }
     let alpha_sched = PiecewiseConstant::new(knots.clone(), alpha_values.clone());
@@ -226,15 +243,16 @@ pub fn calibrate_time_dependent(
         let sub_nu = PiecewiseConstant::new(knots[..=i + 1].to_vec(), nu_values[..=i].to_vec());
         let sub_alpha =
             PiecewiseConstant::new(knots[..=i + 1].to_vec(), alpha_values[..=i].to_vec());
-        let gamma_tilde = effective_vol_vol(&sub_nu, &sub_alpha, t);
-        let omega_tilde = effective_term_structure(&sub_nu, &sub_alpha, t);
+        let gamma_tilde = try_effective_vol_vol(&sub_nu, &sub_alpha, t)?;
+        let omega_tilde = try_effective_term_structure(&sub_nu, &sub_alpha, t)?;
         let target = market[i].rho;
         let s_i = (knots[i + 1] - knots[i]) * nu_values[i] / alpha_values[i];
-        assert!(
-            s_i.abs() > 1.0e-15,
-            "stage-4 ρ denominator zero at pillar {}",
-            i
-        );
+        if s_i.is_nan() || s_i.abs() <= 1.0e-15 {
+            return Err(Error::InvalidData(format!(
+                "stage-4 ρ denominator zero at pillar {}",
+                i
+            )));
+        }
         let rhs = target * gamma_tilde * t / omega_tilde;
         let rho_i = (rhs - tail_sum) / s_i;
         tail_sum += rho_i * s_i;
@@ -271,21 +289,21 @@ pub fn calibrate_time_dependent(
                 params.alpha.knots[..=i + 1].to_vec(),
                 params.rho.values[..=i].to_vec(),
             );
-            let mod_nu = effective_vol_vol(&sub_nu, &sub_alpha, t);
-            let mod_omega = effective_term_structure(&sub_nu, &sub_alpha, t);
-            let mod_rho = effective_correlation(&sub_nu, &sub_alpha, &sub_rho, t);
+            let mod_nu = try_effective_vol_vol(&sub_nu, &sub_alpha, t)?;
+            let mod_omega = try_effective_term_structure(&sub_nu, &sub_alpha, t)?;
+            let mod_rho = try_effective_correlation(&sub_nu, &sub_alpha, &sub_rho, t)?;
             let errs = [mod_nu - mp.nu, mod_omega - mp.alpha, mod_rho - mp.rho];
             let post_fit_rmse = (errs.iter().map(|e| e * e).sum::<f64>() / 3.0).sqrt();
-            PillarDiagnostics {
+            Ok(PillarDiagnostics {
                 expiry: pi.expiry,
                 market_effective: *mp,
                 stage1_rmse: *r1,
                 post_fit_rmse,
-            }
+            })
         })
-        .collect();
+        .collect::<Result<_>>()?;
 
-    TimeDependentCalibrationResult { params, per_pillar }
+    Ok(TimeDependentCalibrationResult { params, per_pillar })
 }
 
 /// Bisect a monotone-increasing `f` on `[lo, hi]` for the root of
@@ -293,22 +311,28 @@ pub fn calibrate_time_dependent(
 /// reachable range on this segment) returns the nearest endpoint —
 /// calibration proceeds with a known residual rather than panicking.
 /// The residual is captured downstream via `post_fit_rmse`.
-fn bisect<F: Fn(f64) -> f64>(f: F, mut lo: f64, mut hi: f64, tol: f64, max_iter: usize) -> f64 {
-    let f_lo = f(lo);
-    let f_hi = f(hi);
+fn bisect<F: Fn(f64) -> Result<f64>>(
+    f: F,
+    mut lo: f64,
+    mut hi: f64,
+    tol: f64,
+    max_iter: usize,
+) -> Result<f64> {
+    let f_lo = f(lo)?;
+    let f_hi = f(hi)?;
     if f_lo > 0.0 {
         // Target below lo; best-effort = lo.
-        return lo;
+        return Ok(lo);
     }
     if f_hi < 0.0 {
         // Target above hi even after widening; return hi.
-        return hi;
+        return Ok(hi);
     }
     for _ in 0..max_iter {
         let mid = 0.5 * (lo + hi);
-        let f_mid = f(mid);
+        let f_mid = f(mid)?;
         if f_mid.abs() < tol || (hi - lo) < tol {
-            return mid;
+            return Ok(mid);
         }
         if f_mid < 0.0 {
             lo = mid;
@@ -316,13 +340,13 @@ fn bisect<F: Fn(f64) -> f64>(f: F, mut lo: f64, mut hi: f64, tol: f64, max_iter:
             hi = mid;
         }
     }
-    0.5 * (lo + hi)
+    Ok(0.5 * (lo + hi))
 }
 
 /// Trait-object wrapper for the 4-stage time-dependent SABR
 /// surface calibrator. `Market` is the multi-pillar
 /// `Vec<MarketSmileStrip>` shape; the trait drives
-/// [`calibrate_time_dependent`] after building `PillarTarget`s from
+/// [`try_calibrate_time_dependent`] after building `PillarTarget`s from
 /// each strip.
 ///
 /// `forward_0` is used as the initial forward in the resulting
@@ -345,7 +369,8 @@ impl Calibration for SabrTimeDependentSurfaceCalibrator {
         options: NelderMeadOptions,
     ) -> Result<CalibrationReport<Self::Params>> {
         let pillar_targets: Vec<PillarTarget> = pillars.iter().map(|s| s.pillar_target()).collect();
-        let res = calibrate_time_dependent(&pillar_targets, self.beta, self.forward_0, options);
+        let res =
+            try_calibrate_time_dependent(&pillar_targets, self.beta, self.forward_0, options)?;
         // Surface-level RMSE: max across pillars of the stage-1 smile
         // RMSE. This is the most conservative single summary number;
         // callers who need per-pillar breakdowns should call
-- 
2.43.0


From 01b9845c42fd40588d413d8bc2ea777224681394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 41/44] fix: validate the market strip in every smile
 calibrator

Empty, ragged, non-finite or non-positive strips panicked in assertions or were
silently cut to the shorter column.
---
 src/models/forex/fx_fmm_calibrator.rs         |  1 +
 src/models/forex/fx_hhw_calibrator.rs         |  1 +
 src/models/forex/fx_hlmm_calibrator.rs        |  1 +
 src/models/forex/market_data.rs               | 25 ++++++++++++++++++-
 src/models/forex/sabr_calibrator.rs           |  1 +
 .../forex/sabr_time_dependent_calibrator.rs   |  3 +++
 6 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/models/forex/fx_fmm_calibrator.rs b/src/models/forex/fx_fmm_calibrator.rs
index 44a6257..ce5b051 100644
--- a/src/models/forex/fx_fmm_calibrator.rs
+++ b/src/models/forex/fx_fmm_calibrator.rs
@@ -207,6 +207,7 @@ impl Calibration for FxFmmSmileCalibrator {
         market: &Self::Market,
         options: NelderMeadOptions,
     ) -> Result<CalibrationReport<Self::Params>> {
+        market.validate()?;
         let targets: Vec<CalibrationTarget> = market
             .strikes
             .iter()
diff --git a/src/models/forex/fx_hhw_calibrator.rs b/src/models/forex/fx_hhw_calibrator.rs
index fd64e91..a1927c0 100644
--- a/src/models/forex/fx_hhw_calibrator.rs
+++ b/src/models/forex/fx_hhw_calibrator.rs
@@ -275,6 +275,7 @@ impl Calibration for FxHhwSmileCalibrator {
         market: &Self::Market,
         options: NelderMeadOptions,
     ) -> Result<CalibrationReport<Self::Params>> {
+        market.validate()?;
         let targets = market.hhw_targets();
         let res = match self.gamma_max {
             Some(gmax) => calibrate_bounded(
diff --git a/src/models/forex/fx_hlmm_calibrator.rs b/src/models/forex/fx_hlmm_calibrator.rs
index a8eb678..71cd454 100644
--- a/src/models/forex/fx_hlmm_calibrator.rs
+++ b/src/models/forex/fx_hlmm_calibrator.rs
@@ -197,6 +197,7 @@ impl Calibration for FxHlmmSmileCalibrator {
         market: &Self::Market,
         options: NelderMeadOptions,
     ) -> Result<CalibrationReport<Self::Params>> {
+        market.validate()?;
         // HLMM has its own CalibrationTarget type (distinct from the
         // FX-HHW / SABR ones even though the fields coincide). Build
         // HLMM targets directly from the strike-vol pairs.
diff --git a/src/models/forex/market_data.rs b/src/models/forex/market_data.rs
index 24da8af..cf8434a 100644
--- a/src/models/forex/market_data.rs
+++ b/src/models/forex/market_data.rs
@@ -27,7 +27,7 @@
 //! A calibrator that historically took a `Pillar`-like ad-hoc struct is
 //! now one method call away from a full market-data pipeline.
 
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::markets::forex::quotes::volsurface::FXVolSurface;
 use crate::models::forex::fx_hhw_calibrator::CalibrationTarget as HhwTarget;
 use crate::models::forex::sabr_calibrator::CalibrationTarget as SabrTarget;
@@ -75,6 +75,29 @@ pub fn smile_strip(
 }
 
 impl MarketSmileStrip {
+    /// Reject a strip no calibrator can fit: an empty or ragged strike /
+    /// vol grid, or an expiry, forward, strike or vol that is not a
+    /// finite positive number.
+    pub fn validate(&self) -> Result<()> {
+        if self.strikes.is_empty() || self.strikes.len() != self.vols.len() {
+            return Err(Error::InvalidData(format!(
+                "smile strip needs one vol per strike, got {} strikes and {} vols",
+                self.strikes.len(),
+                self.vols.len()
+            )));
+        }
+        let numbers = [self.expiry_yf, self.forward];
+        for x in numbers.iter().chain(&self.strikes).chain(&self.vols) {
+            if !x.is_finite() || *x <= 0.0 {
+                return Err(Error::InvalidData(format!(
+                    "smile strip needs finite positive expiry, forward, strikes and vols, got {}",
+                    x
+                )));
+            }
+        }
+        Ok(())
+    }
+
     /// FX-HHW calibration targets — strike+vol pairs with no forward
     /// or expiry context (those are arguments to
     /// [`crate::models::forex::fx_hhw_calibrator::calibrate`]).
diff --git a/src/models/forex/sabr_calibrator.rs b/src/models/forex/sabr_calibrator.rs
index 9d45d38..8c5505e 100644
--- a/src/models/forex/sabr_calibrator.rs
+++ b/src/models/forex/sabr_calibrator.rs
@@ -155,6 +155,7 @@ impl Calibration for SabrSmileCalibrator {
         market: &Self::Market,
         options: NelderMeadOptions,
     ) -> Result<CalibrationReport<Self::Params>> {
+        market.validate()?;
         let targets = market.sabr_targets();
         let res = calibrate(
             self.initial,
diff --git a/src/models/forex/sabr_time_dependent_calibrator.rs b/src/models/forex/sabr_time_dependent_calibrator.rs
index a327aca..bb1ebfa 100644
--- a/src/models/forex/sabr_time_dependent_calibrator.rs
+++ b/src/models/forex/sabr_time_dependent_calibrator.rs
@@ -368,6 +368,9 @@ impl Calibration for SabrTimeDependentSurfaceCalibrator {
         pillars: &Self::Market,
         options: NelderMeadOptions,
     ) -> Result<CalibrationReport<Self::Params>> {
+        for strip in pillars {
+            strip.validate()?;
+        }
         let pillar_targets: Vec<PillarTarget> = pillars.iter().map(|s| s.pillar_target()).collect();
         let res =
             try_calibrate_time_dependent(&pillar_targets, self.beta, self.forward_0, options)?;
-- 
2.43.0


From 35c1acd7b11fe7cdf9dd286c1171921854f42451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:40 +0000
Subject: [PATCH 42/44] fix: report a cap quote with a non-finite strike
 instead of panicking

---
 src/markets/interestrate/volsurface.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/markets/interestrate/volsurface.rs b/src/markets/interestrate/volsurface.rs
index 4a4bd70..0f47153 100644
--- a/src/markets/interestrate/volsurface.rs
+++ b/src/markets/interestrate/volsurface.rs
@@ -248,6 +248,13 @@ fn strip_caplet_vols(
     yts: &YieldTermStructure,
     md: &IRCapMarketData,
 ) -> Result<Vec<CapletVolPillar>> {
+    if let Some(q) = md.cap_quotes.iter().find(|q| !q.strike.is_finite()) {
+        return Err(Error::InvalidData(format!(
+            "cap quote has strike {}",
+            q.strike
+        )));
+    }
+
     // 1. Group quotes by strike. Use an O(N²) linear search keyed by float
     //    equality — the number of strikes is small (≤ 10 in practice).
     let mut groups: Vec<(f64, Vec<&CapQuote>)> = Vec::new();
-- 
2.43.0


From 322d474887ff9b62c2fc721c2f96ffb0bfc0edd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:40 +0000
Subject: [PATCH 43/44] fix: report a curve quote that gives no finite rate
 instead of bootstrapping on it

---
 src/markets/termstructures/yieldcurve.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 2f938f7..7a1c5c4 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -148,6 +148,15 @@ impl YieldTermMarketData {
                 source: future.yts_type(),
             })
         }
+        if let Some(bad) = outputs
+            .iter()
+            .find(|p| !(p.zero_rate.is_finite() && p.discount.is_finite()))
+        {
+            return Err(Error::InvalidData(format!(
+                "the quote {} gives no finite rate for {}",
+                bad.market_rate, bad.date
+            )));
+        }
         for swap in &self.swap_quote {
             let first_leg = swap
                 .legs
-- 
2.43.0


From a7a0c1f2fbb010ea95cf8a9087d4e6726098d08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:31 +0000
Subject: [PATCH 44/44] fix: report a period that leaves the range of dates
 instead of panicking

---
 src/time/period.rs | 50 ++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/time/period.rs b/src/time/period.rs
index 32df17a..e7cc8a8 100644
--- a/src/time/period.rs
+++ b/src/time/period.rs
@@ -166,18 +166,19 @@ impl Add<Period> for NaiveDate {
             Period::TN => self + ONE_DAY,
             Period::SPOT => self,
             Period::SN => self + ONE_DAY,
-            Period::Days(num) => {
-                self + Duration::try_days(num).ok_or_else(|| {
-                    Error::PeriodOutOfBounds(format!("{num} days is out of bounds"))
-                })?
-            }
-            Period::Weeks(num) => {
-                self + Duration::try_days(num * 7).ok_or_else(|| {
-                    Error::PeriodOutOfBounds(format!("{num} weeks is out of bounds"))
-                })?
-            }
-            Period::Months(num) => self + Months::new(num),
-            Period::Years(num) => self + Months::new(num * 12),
+            Period::Days(num) => Duration::try_days(num)
+                .and_then(|days| self.checked_add_signed(days))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} days is out of bounds")))?,
+            Period::Weeks(num) => Duration::try_weeks(num)
+                .and_then(|weeks| self.checked_add_signed(weeks))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} weeks is out of bounds")))?,
+            Period::Months(num) => self.checked_add_months(Months::new(num)).ok_or_else(|| {
+                Error::PeriodOutOfBounds(format!("{num} months is out of bounds"))
+            })?,
+            Period::Years(num) => num
+                .checked_mul(12)
+                .and_then(|months| self.checked_add_months(Months::new(months)))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} years is out of bounds")))?,
         };
 
         Ok(date)
@@ -193,18 +194,19 @@ impl Sub<Period> for NaiveDate {
             Period::TN => self - ONE_DAY,
             Period::SPOT => self,
             Period::SN => self - ONE_DAY,
-            Period::Days(num) => {
-                self - Duration::try_days(num).ok_or_else(|| {
-                    Error::PeriodOutOfBounds(format!("{num} days is out of bounds"))
-                })?
-            }
-            Period::Weeks(num) => {
-                self - Duration::try_days(num * 7).ok_or_else(|| {
-                    Error::PeriodOutOfBounds(format!("{num} weeks is out of bounds"))
-                })?
-            }
-            Period::Months(num) => self - Months::new(num),
-            Period::Years(num) => self - Months::new(num * 12),
+            Period::Days(num) => Duration::try_days(num)
+                .and_then(|days| self.checked_sub_signed(days))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} days is out of bounds")))?,
+            Period::Weeks(num) => Duration::try_weeks(num)
+                .and_then(|weeks| self.checked_sub_signed(weeks))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} weeks is out of bounds")))?,
+            Period::Months(num) => self.checked_sub_months(Months::new(num)).ok_or_else(|| {
+                Error::PeriodOutOfBounds(format!("{num} months is out of bounds"))
+            })?,
+            Period::Years(num) => num
+                .checked_mul(12)
+                .and_then(|months| self.checked_sub_months(Months::new(months)))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} years is out of bounds")))?,
         };
 
         Ok(date)
-- 
2.43.0

