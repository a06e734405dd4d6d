From b2e97742a812989f66dc64d1cff997fbbfeb6878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:29 +0000
Subject: [PATCH 01/24] fix: range-check in-place day arithmetic on dates

date += n and date -= n silently produced dates before 1900-01-01 or after
2199-12-31, unlike date + n and date - n, which reject them. The calendar
listing loops no longer step past their last date, so that lists up to the
maximum date still work.
---
 src/datetime/calendar.rs | 14 ++++++++++----
 src/datetime/date.rs     |  8 ++------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/datetime/calendar.rs b/src/datetime/calendar.rs
index 25a16a4..f425a21 100644
--- a/src/datetime/calendar.rs
+++ b/src/datetime/calendar.rs
@@ -116,13 +116,16 @@ impl Calendar {
         );
         let mut result = vec![];
         let mut d = from;
-        while d <= to {
+        loop {
             if self.is_holiday(&d) && (include_weekends || !self.is_weekend(d.weekday())) {
                 result.push(d);
             }
+            // stop here rather than step past the last date, which may be the maximum one
+            if d == to {
+                return result;
+            }
             d += 1;
         }
-        result
     }
 
     /// Returns the business days between two dates.
@@ -135,13 +138,16 @@ impl Calendar {
         );
         let mut result = vec![];
         let mut d = from;
-        while d <= to {
+        loop {
             if self.is_business_day(&d) {
                 result.push(d);
             }
+            // stop here rather than step past the last date, which may be the maximum one
+            if d == to {
+                return result;
+            }
             d += 1;
         }
-        result
     }
 
     /// Adjusts a non-business day to the appropriate near business day using the
diff --git a/src/datetime/date.rs b/src/datetime/date.rs
index bc3cf87..0504f15 100644
--- a/src/datetime/date.rs
+++ b/src/datetime/date.rs
@@ -84,9 +84,7 @@ impl<'a> Add<SerialNumber> for &'a Date {
 
 impl AddAssign<SerialNumber> for Date {
     fn add_assign(&mut self, rhs: SerialNumber) {
-        self.date_time = Date::min_date().date_time
-            + Duration::days(self.serial_number as BigInteger + rhs as BigInteger - 2);
-        self.serial_number += rhs;
+        *self = Date::from_serial(self.serial_number + rhs);
     }
 }
 
@@ -110,9 +108,7 @@ impl<'a> Sub<SerialNumber> for &'a Date {
 
 impl SubAssign<SerialNumber> for Date {
     fn sub_assign(&mut self, rhs: SerialNumber) {
-        self.date_time = Date::min_date().date_time
-            + Duration::days(self.serial_number as BigInteger - rhs as BigInteger - 2);
-        self.serial_number -= rhs;
+        *self = Date::from_serial(self.serial_number - rhs);
     }
 }
 
-- 
2.43.0


From 100ef562ed0471bb91c3e3e7c8f7a1c0c8d82082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 02/24] fix: make period comparison a consistent order

A zero-length right-hand side was compared the wrong way round (0D < 1D and
1D < 0D), and periods whose ranges of days overlap (1M and 30D) were ranked
by the lower bound of their ranges, so that 364D < 1Y, 1Y == 12M and
12M < 364D all held. Such pairs are now unordered (and unequal).
---
 src/datetime/period.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/datetime/period.rs b/src/datetime/period.rs
index a7b458b..4c834d7 100644
--- a/src/datetime/period.rs
+++ b/src/datetime/period.rs
@@ -38,7 +38,7 @@ impl Debug for Period {
 
 impl PartialEq for Period {
     fn eq(&self, other: &Self) -> bool {
-        !(self < other || other < self)
+        self.partial_cmp(other) == Some(std::cmp::Ordering::Equal)
     }
 }
 
@@ -61,7 +61,7 @@ impl PartialOrd for Period {
             return 0.partial_cmp(&p2.length);
         }
         if p2.length == 0 {
-            return 0.partial_cmp(&p1.length);
+            return p1.length.partial_cmp(&0);
         }
 
         // exact comparisons
@@ -82,9 +82,16 @@ impl PartialOrd for Period {
         }
 
         // inexact comparisons (handled by converting to days and using limits)
-        let p1_lim = p1.days_min_max();
-        let p2_lim = p2.days_min_max();
-        p1_lim.partial_cmp(&p2_lim)
+        let (p1_min, p1_max) = p1.days_min_max();
+        let (p2_min, p2_max) = p2.days_min_max();
+        if p1_max < p2_min {
+            Some(std::cmp::Ordering::Less)
+        } else if p1_min > p2_max {
+            Some(std::cmp::Ordering::Greater)
+        } else {
+            // undecidable: which one is longer depends on the start date
+            None
+        }
     }
 }
 
-- 
2.43.0


From 52b841df2acd4d04c90bc4564a6263b1f9aa85ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 03/24] fix: hash equal periods equally

12M == 1Y, 7D == 1W and 0M == 0D, but they hashed differently.
---
 src/datetime/period.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/datetime/period.rs b/src/datetime/period.rs
index 4c834d7..57566a2 100644
--- a/src/datetime/period.rs
+++ b/src/datetime/period.rs
@@ -44,8 +44,14 @@ impl PartialEq for Period {
 
 impl Hash for Period {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        self.length.hash(state);
-        self.unit.hash(state);
+        // periods which compare equal (e.g. 12M and 1Y) must hash equally
+        let p = match self.unit {
+            Days | Weeks | Months | Years => self.normalised(),
+            _ if self.length == 0 => self.normalised(),
+            _ => *self,
+        };
+        p.length.hash(state);
+        p.unit.hash(state);
     }
 }
 
-- 
2.43.0


From fa373e8142de814a33f20ceb62fda3420f09c815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 04/24] fix: reject non-ASCII IMM codes instead of panicking

A two-byte string such as a single non-ASCII letter was sliced in the middle
of a character.
---
 src/datetime/imm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/imm.rs b/src/datetime/imm.rs
index cd6949b..9b73781 100644
--- a/src/datetime/imm.rs
+++ b/src/datetime/imm.rs
@@ -55,7 +55,7 @@ impl IMM {
 
     /// Returns whether or not the given `input` string is an IMM code
     pub fn is_imm_code(&self, input: &str, main_cycle: bool) -> bool {
-        if input.len() != 2 {
+        if input.len() != 2 || !input.is_ascii() {
             return false;
         }
         let mut str1 = "0123456789";
-- 
2.43.0


From 9e1226d0862545ddc76dd1fe882d3aa01617418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 05/24] fix: resolve IMM codes with digit 0 from reference
 dates in 1909

Year 1900 was tried first, and January 1st, 1900 is the null date, which
stands for the evaluation date: F0 resolved to an unrelated year.
---
 src/datetime/imm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/imm.rs b/src/datetime/imm.rs
index 9b73781..0e9c072 100644
--- a/src/datetime/imm.rs
+++ b/src/datetime/imm.rs
@@ -136,7 +136,7 @@ impl IMM {
 
         // year < 1900 are not valid QuantLib years: to avoid a run-time
         // exception few lines below we need to add 10 years right away
-        if y == 0 && reference_date.year() < 1909 {
+        if y == 0 && reference_date.year() <= 1909 {
             y += 10;
         }
         let reference_year = reference_date.year() % 10;
-- 
2.43.0


From 1b38ea2594c4ec6a8198b230c6c834e8e2f996ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:05 +0000
Subject: [PATCH 06/24] fix: honour added and removed holidays in
 Calendar::is_holiday

---
 src/datetime/calendar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/calendar.rs b/src/datetime/calendar.rs
index f425a21..3da9303 100644
--- a/src/datetime/calendar.rs
+++ b/src/datetime/calendar.rs
@@ -65,7 +65,7 @@ impl Calendar {
 
     /// Returns `true` iff the date is a holiday for the given market
     pub fn is_holiday(&self, date: &Date) -> bool {
-        !self.holiday.is_business_day(date)
+        !self.is_business_day(date)
     }
 
     /// Returns `true` iff the weekday is part of the weekend for the given market.    
-- 
2.43.0


From 84ecb6325fc9fcd62abc434b767577fbb3fb04bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:05 +0000
Subject: [PATCH 07/24] fix: treat weekends as non-business days in the US
 settlement and Libor calendars

---
 src/datetime/holidays/unitedstates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datetime/holidays/unitedstates.rs b/src/datetime/holidays/unitedstates.rs
index d0675e9..6896002 100644
--- a/src/datetime/holidays/unitedstates.rs
+++ b/src/datetime/holidays/unitedstates.rs
@@ -77,7 +77,7 @@ impl UnitedStatesSettlement {
 
     pub fn is_business_day(&self, date: &Date) -> bool {
         let w = date.weekday();
-        self.is_weekend(w) || is_settlement_business_day(date)
+        !self.is_weekend(w) && is_settlement_business_day(date)
     }
 
     pub fn is_weekend(&self, weekday: Weekday) -> bool {
@@ -121,7 +121,7 @@ impl UnitedStatesLiborImpact {
             return true;
         }
 
-        self.is_weekend(w) || is_settlement_business_day(date)
+        !self.is_weekend(w) && is_settlement_business_day(date)
     }
 
     pub fn is_weekend(&self, weekday: Weekday) -> bool {
-- 
2.43.0


From 8651d21982db3b3e46758527d09902ed9b3dccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 08/24] fix: count leap years correctly in the Japanese equinox
 calculation

---
 src/datetime/holidays/japan.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datetime/holidays/japan.rs b/src/datetime/holidays/japan.rs
index aeb90c6..338479e 100644
--- a/src/datetime/holidays/japan.rs
+++ b/src/datetime/holidays/japan.rs
@@ -44,7 +44,8 @@ impl Japan {
 
         // equinox calculation
         let moving_amount = (y - 2000) as Time * DIFF_PER_YEAR;
-        let number_of_leap_years = (y - 2000) / 4 + (y - 2000) / 100 - (y - 2000) / 400;
+        let number_of_leap_years =
+            (y - 2000).div_euclid(4) - (y - 2000).div_euclid(100) + (y - 2000).div_euclid(400);
         let ve = // vernal equinox day
             (EXACT_VERNAL_EQUINOX_TIME + moving_amount - number_of_leap_years as Time) as Day;
         let ae = // autumnal equinox day
-- 
2.43.0


From 8c842924d4f3baa4b8691026c48336c8021e5366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 09/24] fix: adjust the termination date with its own
 convention

---
 src/datetime/schedule.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index 0db6400..bd99bce 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -499,7 +499,9 @@ impl Schedule {
                 && result.rule != DateGenerationRule::CDS2015
             {
                 let len = result.dates.len();
-                result.dates[len - 1] = result.calendar.adjust(result.dates[len - 1], convention);
+                result.dates[len - 1] = result
+                    .calendar
+                    .adjust(result.dates[len - 1], result.termination_date_convention);
             }
         }
 
-- 
2.43.0


From 476cfc32cfdf770ebaa5dd74623d14937d3aa271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:23 +0000
Subject: [PATCH 10/24] fix: derive a missing effective date without a
 next-to-last date

---
 src/datetime/schedule.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index bd99bce..f026c84 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -121,6 +121,10 @@ impl Schedule {
                 let date_diff_serial = &next_to_last - eval_date;
                 let y = date_diff_serial / 366 + 1;
                 effective_date = next_to_last - Period::new(y, Years);
+            } else {
+                let date_diff_serial = &termination_date - eval_date;
+                let y = date_diff_serial / 366 + 1;
+                effective_date = termination_date - Period::new(y, Years);
             }
         } else {
             assert!(
-- 
2.43.0


From 19275ec03e745352fa5e15b0c754514374e8b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 11/24] fix: subtract days of the month as signed numbers in
 30/360 and 30/365 day counts

---
 src/datetime/daycounters/thirty360.rs | 8 ++++----
 src/datetime/daycounters/thirty365.rs | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/datetime/daycounters/thirty360.rs b/src/datetime/daycounters/thirty360.rs
index 0e04e88..355a708 100644
--- a/src/datetime/daycounters/thirty360.rs
+++ b/src/datetime/daycounters/thirty360.rs
@@ -215,7 +215,7 @@ impl EU {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -261,7 +261,7 @@ impl IT {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -310,7 +310,7 @@ impl ISDA {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 as Integer - mm1 as Integer) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 as Integer - mm1 as Integer) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -353,7 +353,7 @@ impl NASD {
             mm2 += 1;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
diff --git a/src/datetime/daycounters/thirty365.rs b/src/datetime/daycounters/thirty365.rs
index c6bc9ef..cfc7bd6 100644
--- a/src/datetime/daycounters/thirty365.rs
+++ b/src/datetime/daycounters/thirty365.rs
@@ -29,7 +29,7 @@ impl Thirty365 {
         let yy1 = d1.year();
         let yy2 = d2.year();
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
-- 
2.43.0


From afd3a15a1bf6c7090de86dc827a97c5edd5a1258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:35 +0000
Subject: [PATCH 12/24] fix: replace the last date, not the one before it, by
 the notional last coupon

---
 src/datetime/daycounters/actualactual.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/datetime/daycounters/actualactual.rs b/src/datetime/daycounters/actualactual.rs
index 1261a6d..e5516ea 100644
--- a/src/datetime/daycounters/actualactual.rs
+++ b/src/datetime/daycounters/actualactual.rs
@@ -188,7 +188,9 @@ impl ISMA {
                 self.schedule.business_day_convention(),
                 self.schedule.end_of_month(),
             );
-            new_dates[self.schedule.size() - 1] = notional_last_coupon;
+            // the list is longer than the schedule after a long first coupon
+            let last = new_dates.len() - 1;
+            new_dates[last] = notional_last_coupon;
             if notional_last_coupon < *self.schedule.end_date() {
                 let next_notional_coupon = self.schedule.calendar().advance_by_period(
                     notional_last_coupon,
-- 
2.43.0


From 3fc7ef217488ad28e4b2f6cbebbb43c1236712fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:16 +0000
Subject: [PATCH 13/24] fix: report the frequency of rates compounded at
 another frequency

---
 src/datetime/frequency.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/datetime/frequency.rs b/src/datetime/frequency.rs
index 591af31..73fab9e 100644
--- a/src/datetime/frequency.rs
+++ b/src/datetime/frequency.rs
@@ -42,6 +42,7 @@ impl From<Integer> for Frequency {
             26 => Self::Biweekly,
             52 => Self::Weekly,
             365 => Self::Daily,
+            999 => Self::OtherFrequency,
             other => panic!("Invalid frequency: {}", other),
         }
     }
-- 
2.43.0


From c0c7b5342545f39e863df8a582e12ba47c3205a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 14/24] fix: forward the ex-coupon date of shared cash flows

---
 src/cashflows/cashflow.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cashflows/cashflow.rs b/src/cashflows/cashflow.rs
index 2a1e42f..a1a7568 100644
--- a/src/cashflows/cashflow.rs
+++ b/src/cashflows/cashflow.rs
@@ -146,6 +146,10 @@ where
         (**self).date()
     }
 
+    fn ex_coupon_date(&self) -> Date {
+        (**self).ex_coupon_date()
+    }
+
     fn reference_period_start(&self) -> Date {
         (**self).reference_period_start()
     }
-- 
2.43.0


From 68812f823fa074343e17e08dd842c7ddad0bed55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 15/24] fix: make the accrued amount of a coupon negative in
 its ex-coupon period

---
 src/cashflows/fixedratecoupon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cashflows/fixedratecoupon.rs b/src/cashflows/fixedratecoupon.rs
index b9fd397..281d70e 100644
--- a/src/cashflows/fixedratecoupon.rs
+++ b/src/cashflows/fixedratecoupon.rs
@@ -89,7 +89,7 @@ impl CashFlow for FixedRateCoupon {
                 &self.ref_period_start,
                 &self.ref_period_end,
             );
-            self.nominal * (compound_factor - 1.0)
+            -self.nominal * (compound_factor - 1.0)
         } else {
             // usual case
             let compound_factor = self.rate.compound_factor_between_dates(
-- 
2.43.0


From 5120d0c2ef60d945b2b8a31bd5c792231f2bf5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 16/24] fix: replace notionals and rates when a fixed rate leg
 is given new ones

---
 src/cashflows/fixedrateleg.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/cashflows/fixedrateleg.rs b/src/cashflows/fixedrateleg.rs
index 4377767..35cb880 100644
--- a/src/cashflows/fixedrateleg.rs
+++ b/src/cashflows/fixedrateleg.rs
@@ -51,7 +51,7 @@ impl FixedRateLeg {
     }
 
     pub fn with_notional(mut self, notional: Real) -> Self {
-        self.notionals.resize(1, notional);
+        self.notionals = vec![notional];
         self
     }
 
@@ -67,10 +67,7 @@ impl FixedRateLeg {
         compounding: Compounding,
         frequency: Frequency,
     ) -> Self {
-        self.coupon_rates.resize(
-            1,
-            InterestRate::new(rate, daycounter, compounding, frequency),
-        );
+        self.coupon_rates = vec![InterestRate::new(rate, daycounter, compounding, frequency)];
         self
     }
 
@@ -81,6 +78,7 @@ impl FixedRateLeg {
         compounding: Compounding,
         frequency: Frequency,
     ) -> Self {
+        self.coupon_rates.clear();
         for rate in rates {
             let r = InterestRate::new(rate, daycounter.clone(), compounding.clone(), frequency);
             self.coupon_rates.push(r);
@@ -89,7 +87,7 @@ impl FixedRateLeg {
     }
 
     pub fn with_interest_rate(mut self, interest_rate: InterestRate) -> Self {
-        self.coupon_rates.resize(1, interest_rate);
+        self.coupon_rates = vec![interest_rate];
         self
     }
 
-- 
2.43.0


From 9c6da734332e7ec1eb1e4cac1f65e0c586eb17b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 17/24] fix: locate the last point of an interpolation in the
 last interval

---
 src/maths/interpolations/lagrangeinterpolation.rs | 2 +-
 src/maths/interpolations/linearinterpolation.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maths/interpolations/lagrangeinterpolation.rs b/src/maths/interpolations/lagrangeinterpolation.rs
index 7f7e472..fc26ce0 100644
--- a/src/maths/interpolations/lagrangeinterpolation.rs
+++ b/src/maths/interpolations/lagrangeinterpolation.rs
@@ -111,7 +111,7 @@ impl<'a> Interpolation for LagrangeInterpolation<'a> {
         } else if x > self.x[self.x.len() - 1] {
             self.x.len() - 2
         } else {
-            upper_bound(self.x, x) - 1
+            upper_bound(&self.x[..self.x.len() - 1], x) - 1
         }
     }
 
diff --git a/src/maths/interpolations/linearinterpolation.rs b/src/maths/interpolations/linearinterpolation.rs
index a3f6888..61d2319 100644
--- a/src/maths/interpolations/linearinterpolation.rs
+++ b/src/maths/interpolations/linearinterpolation.rs
@@ -70,7 +70,7 @@ impl<'a> Interpolation for LinearInterpolation<'a> {
         } else if x > self.x[self.x.len() - 1] {
             self.x.len() - 2
         } else {
-            upper_bound(self.x, x) - 1
+            upper_bound(&self.x[..self.x.len() - 1], x) - 1
         }
     }
 
-- 
2.43.0


From 125ee091634c66f18f5c48ded1bf37b8d23446c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 18/24] fix: interpolate at a support point equal to zero

---
 src/maths/interpolations/lagrangeinterpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maths/interpolations/lagrangeinterpolation.rs b/src/maths/interpolations/lagrangeinterpolation.rs
index fc26ce0..81fe366 100644
--- a/src/maths/interpolations/lagrangeinterpolation.rs
+++ b/src/maths/interpolations/lagrangeinterpolation.rs
@@ -84,7 +84,7 @@ impl<'a> Interpolation for LagrangeInterpolation<'a> {
         self.check_range(x, allow_extrapolation);
         let eps = 10.0 * f64::EPSILON * x.abs();
         let lb = lower_bound(self.x, x - eps);
-        if lb != self.x.len() && self.x[lb] - x < eps {
+        if lb != self.x.len() && self.x[lb] - x <= eps {
             return self.y[lb];
         }
         let mut n = 0.0;
-- 
2.43.0


From eac3d563caf1b4aae76af7b2b8a0207ab9a77a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:23 +0000
Subject: [PATCH 19/24] fix: give zero no sign when checking prices against
 cash flows

---
 src/cashflows/irrfinder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cashflows/irrfinder.rs b/src/cashflows/irrfinder.rs
index 4b3ef17..ed069fe 100644
--- a/src/cashflows/irrfinder.rs
+++ b/src/cashflows/irrfinder.rs
@@ -93,19 +93,23 @@ impl<'a, T: CashFlow> IrrFinder<'a, T> {
         settlement_date: Date,
         include_settlement_date_flows: bool,
     ) {
-        let mut last_sign = (-npv).signum();
+        // zero has no sign
+        let sign = |x: Real| if x == 0.0 { 0.0 } else { x.signum() };
+        let mut last_sign = sign(-npv);
         let mut sign_changes = 0;
 
         for cf in cashflows {
             if !cf.has_occurred(&settlement_date, include_settlement_date_flows)
                 && !cf.trading_ex_coupon(settlement_date)
             {
-                let this_sign = cf.amount().signum();
+                let this_sign = sign(cf.amount());
                 if last_sign * this_sign < 0.0 {
                     // sign change
                     sign_changes += 1;
                 }
-                last_sign = this_sign;
+                if this_sign != 0.0 {
+                    last_sign = this_sign;
+                }
             }
         }
 
-- 
2.43.0


From 8b1a54c488a7158bb93cbbabf2c9352d358904e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:35 +0000
Subject: [PATCH 20/24] fix: a leg of plain cash flows had no maturity date

---
 src/cashflows/cashflow.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cashflows/cashflow.rs b/src/cashflows/cashflow.rs
index a1a7568..578e161 100644
--- a/src/cashflows/cashflow.rs
+++ b/src/cashflows/cashflow.rs
@@ -259,6 +259,12 @@ pub fn maturity_date<T: CashFlow>(cashflows: &Vec<T>) -> Date {
     for cf in cashflows {
         d = d.max(cf.accrual_end_date());
     }
+    if d == Date::default() {
+        // nothing accrues, so the leg matures with its last payment
+        for cf in cashflows {
+            d = d.max(cf.date());
+        }
+    }
     d
 }
 
-- 
2.43.0


From 8dddc3ba97264f3056f1f7b1d581fd96d3ef0389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:24 +0000
Subject: [PATCH 21/24] fix: order the day bounds of negative periods

---
 src/datetime/period.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/datetime/period.rs b/src/datetime/period.rs
index 57566a2..ca90943 100644
--- a/src/datetime/period.rs
+++ b/src/datetime/period.rs
@@ -364,13 +364,15 @@ impl Period {
 
     /// Return the minimum and maximum number of days possible with this [Period].
     pub fn days_min_max(&self) -> (Integer, Integer) {
-        match self.unit {
+        let (a, b) = match self.unit {
             Days => (self.length, self.length),
             Weeks => (7 * self.length, 7 * self.length),
             Months => (28 * self.length, 31 * self.length),
             Years => (365 * self.length, 366 * self.length),
             other => panic!("Invalid timeunit: {:?}", other),
-        }
+        };
+        // the bounds of a negative period come out reversed
+        (a.min(b), a.max(b))
     }
 
     /// Return the number of years represented by this [Period].
-- 
2.43.0


From e6c6c5c4a58c8c0cf5346eb78d5bb724d457aa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 22/24] fix: remove every extra date around the ends of a
 schedule

---
 src/datetime/schedule.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index f026c84..caa71f9 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -509,10 +509,10 @@ impl Schedule {
             }
         }
 
-        // Final safety checks to remove extra next-to-last date, if necessary. It can happen to
+        // Final safety checks to remove extra next-to-last dates, if necessary. They can happen to
         // be equal or later than the end date due to EOM adjustments (see the Schedule test suite
         // for an example).
-        if result.dates.len() >= 2
+        while result.dates.len() >= 2
             && result.dates[result.dates.len() - 2] >= result.dates[result.dates.len() - 1]
         {
             // there might be two dates only, then is_regular has size one
@@ -527,8 +527,10 @@ impl Schedule {
             result.is_regular.pop();
         }
 
-        if result.dates.len() >= 2 && result.dates[1] <= result.dates[0] {
-            result.is_regular[1] = result.dates[1] == result.dates[0];
+        while result.dates.len() >= 2 && result.dates[1] <= result.dates[0] {
+            if result.is_regular.len() >= 2 {
+                result.is_regular[1] = result.dates[1] == result.dates[0];
+            }
             result.dates[1] = result.dates[0];
             result.dates.remove(0); // this is expensive
             result.is_regular.remove(0); // this is expensive
-- 
2.43.0


From 352f9e67d9fee4194ef3046d503ed47933fed30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 23/24] fix: drop explicit dates moved to the same month end as
 their neighbour

---
 src/datetime/schedule.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index caa71f9..e082eb4 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -509,6 +509,17 @@ impl Schedule {
             }
         }
 
+        // explicit first or next-to-last dates can be moved to the same month end as their neighbour
+        let mut i = 1;
+        while i + 2 < result.dates.len() {
+            if result.end_of_month && result.dates[i] == result.dates[i + 1] {
+                result.dates.remove(i);
+                result.is_regular.remove(i);
+            } else {
+                i += 1;
+            }
+        }
+
         // Final safety checks to remove extra next-to-last dates, if necessary. They can happen to
         // be equal or later than the end date due to EOM adjustments (see the Schedule test suite
         // for an example).
-- 
2.43.0


From 1d99f28f4c6699936bd245463a4e131e00cdd524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 24/24] fix: Act/Act (ISMA) coupon frequencies of periods not
 dividing a year were rounded to whole numbers

Coupons every 18 months counted as a year and those of two years as one;
five years and more made the fraction infinite.
---
 src/datetime/daycounters/actualactual.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/datetime/daycounters/actualactual.rs b/src/datetime/daycounters/actualactual.rs
index e5516ea..7d56405 100644
--- a/src/datetime/daycounters/actualactual.rs
+++ b/src/datetime/daycounters/actualactual.rs
@@ -222,21 +222,22 @@ impl ISMA {
         // guess how many coupon periods per year
         let coupons_per_year;
         if reference_day_count < 16 {
-            coupons_per_year = 1;
+            coupons_per_year = 1.0;
             reference_day_count = self.day_count(d1, &(d1 + Period::new(1, Years)));
         } else {
             coupons_per_year = self.find_coupons_per_year(d3, d4);
         }
 
-        self.day_count(d1, d2) as f64 / (reference_day_count * coupons_per_year) as f64
+        self.day_count(d1, d2) as f64 / (reference_day_count as f64 * coupons_per_year)
     }
 
-    fn find_coupons_per_year(&self, ref_start: &Date, ref_end: &Date) -> Integer {
+    fn find_coupons_per_year(&self, ref_start: &Date, ref_end: &Date) -> Real {
         // This will only work for day counts longer than 15 days.
         let day_count = self.day_count(ref_start, ref_end);
         let years = day_count as Real / 365.0;
         let months = (12.0 * years).round() as Integer;
-        (12.0 / months as f64).round() as Integer
+        // not a whole number for periods longer than a year
+        12.0 / months as Real
     }
 }
 
-- 
2.43.0

