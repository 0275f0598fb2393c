From 886a0daaa6530dbc949afb448db16fd2003540c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 01/16] fix: Singapore lists the 2010 Chinese New Year in
 January instead of February

---
 third-parties/calendar/src/singapore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/singapore.rs b/third-parties/calendar/src/singapore.rs
index 2df67cc..d7a15da 100644
--- a/third-parties/calendar/src/singapore.rs
+++ b/third-parties/calendar/src/singapore.rs
@@ -30,7 +30,7 @@ impl Calendar for Singapore {
             || ((d == 19 || d == 20) && m == 2 && y == 2007)
             || ((d == 7 || d == 8) && m == 2 && y == 2008)
             || ((d == 26 || d == 27) && m == 1 && y == 2009)
-            || ((d == 15 || d == 16) && m == 1 && y == 2010)
+            || ((d == 15 || d == 16) && m == 2 && y == 2010)
             || ((d == 23 || d == 24) && m == 1 && y == 2012)
             || ((d == 11 || d == 12) && m == 2 && y == 2013)
             || (d == 31 && m == 1 && y == 2014)
-- 
2.43.0


From 21f0cd1a5590e3cd1616d4e5b5f55fffcafe8147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 02/16] fix: Taiwan lists the 2010 Lunar New Year and Dragon
 Boat Festival one month early

---
 third-parties/calendar/src/taiwan.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/third-parties/calendar/src/taiwan.rs b/third-parties/calendar/src/taiwan.rs
index d7114f0..f13a45c 100644
--- a/third-parties/calendar/src/taiwan.rs
+++ b/third-parties/calendar/src/taiwan.rs
@@ -105,11 +105,11 @@ impl Calendar for Taiwan {
             return false;
         }
         // Year 2010
-        // Lunar New Year 01-13 to 01-21
-        // Dragon Boat Festival 05-16
+        // Lunar New Year 02-13 to 02-21
+        // Dragon Boat Festival 06-16
         // Moon Festival 09-22
         if (y == 2010)
-            && (((13..=21).contains(&d) && m == 1) || (d == 16 && m == 5) || (d == 22 && m == 9))
+            && (((13..=21).contains(&d) && m == 2) || (d == 16 && m == 6) || (d == 22 && m == 9))
         {
             return false;
         }
-- 
2.43.0


From 6f80cce30c871dc5627a52f370940f69b34b79f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 03/16] fix: Israel's 2038 Memorial and Independence days are
 10 and 11 May (5 Iyar is a Monday)

---
 third-parties/calendar/src/israel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/israel.rs b/third-parties/calendar/src/israel.rs
index 20cedb5..faa3444 100644
--- a/third-parties/calendar/src/israel.rs
+++ b/third-parties/calendar/src/israel.rs
@@ -104,7 +104,7 @@ impl Calendar for Israel {
             || ((d == 14 || d == 15) && m == 5 && y == 2035)
             || (((d == 30 && m == 4) || (d == 1 && m == 5)) && y == 2036)
             || ((d == 20 || d == 21) && m == 4 && y == 2037)
-            || ((d == 9 || d == 10) && m == 5 && y == 2038)
+            || ((d == 10 || d == 11) && m == 5 && y == 2038)
             || ((d == 27 || d == 28) && m == 4 && y == 2039)
             || ((d == 17 || d == 18) && m == 4 && y == 2040)
             || ((d == 6 || d == 7) && m == 5 && y == 2041)
-- 
2.43.0


From 941355b5bbbe8fd0fa5de4cff206edf56bc8cdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 04/16] fix: Ukraine observes Orthodox, not Western, Easter
 Monday and Holy Trinity

---
 third-parties/calendar/src/ukraine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/ukraine.rs b/third-parties/calendar/src/ukraine.rs
index 8fbb269..18a2df8 100644
--- a/third-parties/calendar/src/ukraine.rs
+++ b/third-parties/calendar/src/ukraine.rs
@@ -10,7 +10,7 @@ pub struct Ukraine;
 impl Calendar for Ukraine {
     fn is_business_day(&self, date: NaiveDate) -> bool {
         let (d, w, m, y, dd) = self.naive_date_to_dkmy(date);
-        let em = self.easter_monday(y);
+        let em = self.orthodox_easter_monday(y);
         if self.is_weekend(date)
             // New Year's Day (possibly moved to Weekday::Mon)
             || ((d == 1 || ((d == 2 || d == 3) && w == Weekday::Mon))
-- 
2.43.0


From 53fbdb4ce5c0ad3368a3ce9a8680b9c1fcb5eed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 05/16] fix: Japan's equinox holidays are wrong outside the few
 years the tables list

---
 third-parties/calendar/src/japan.rs | 33 ++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/third-parties/calendar/src/japan.rs b/third-parties/calendar/src/japan.rs
index e37e048..b92dfcb 100644
--- a/third-parties/calendar/src/japan.rs
+++ b/third-parties/calendar/src/japan.rs
@@ -9,16 +9,33 @@ pub struct Japan;
 
 impl Japan {
     fn vernal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2014 | 2015 | 2018 | 2019 | 2022 | 2023 | 2027 => 21,
-            _ => 20,
-        }
+        let base = match y {
+            ..=1979 => 20_835_700,
+            1980..=2099 => 20_843_100,
+            _ => 21_851_000,
+        };
+        self.equinox_day(base, y)
     }
     fn autumnal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2020 | 2024 | 2028 => 22,
-            _ => 23,
-        }
+        let base = match y {
+            ..=1979 => 23_258_800,
+            1980..=2099 => 23_248_800,
+            _ => 24_248_800,
+        };
+        self.equinox_day(base, y)
+    }
+
+    /// The equinox moves by 0.242194 days a year and back by one day every leap year
+    /// (`base` is its position in 1980, in millionths of a day).
+    fn equinox_day(&self, base: i64, y: i32) -> u32 {
+        let y = i64::from(y);
+        let leap_days = if y < 1980 {
+            (y - 1983) / 4
+        } else {
+            (y - 1980) / 4
+        };
+        let day = (base + 242_194 * (y - 1980)) / 1_000_000 - leap_days;
+        day.clamp(1, 30) as u32
     }
 }
 
-- 
2.43.0


From 932d094f56c857b0a0a0de2536108894b9d4c4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:17 +0000
Subject: [PATCH 06/16] fix: 30/360 underflows when the end month or day
 precedes the start's

---
 crates/qlab-time/src/day_count/thirty_360.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/qlab-time/src/day_count/thirty_360.rs b/crates/qlab-time/src/day_count/thirty_360.rs
index 690c7b0..c1bd4ff 100644
--- a/crates/qlab-time/src/day_count/thirty_360.rs
+++ b/crates/qlab-time/src/day_count/thirty_360.rs
@@ -18,7 +18,8 @@ impl Thirty360 {
         let d1 = date1.day().min(30);
         let d2 = date2.day().min(30);
         Ok(
-            360 * (date2.year() - date1.year()) as u32 + 30 * (date2.month() - date1.month()) + d2
+            360 * (date2.year() - date1.year()) as u32 + 30 * date2.month() + d2
+                - 30 * date1.month()
                 - d1,
         )
     }
-- 
2.43.0


From 62797ff4da38d88a03b581889f6c35645668f5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 07/16] fix: modified rolling compares with the start date's
 month, not the target's

---
 crates/qlab-time/src/date.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-time/src/date.rs b/crates/qlab-time/src/date.rs
index 81999ba..676466b 100644
--- a/crates/qlab-time/src/date.rs
+++ b/crates/qlab-time/src/date.rs
@@ -273,8 +273,9 @@ impl Date {
                 Some(ret)
             }
             DateRolling::ModifiedFollowing => {
+                let target = self.checked_add(period)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Following)?;
-                if ret.month() == self.month() {
+                if (ret.year(), ret.month()) == (target.year(), target.month()) {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Preceding)
@@ -288,8 +289,9 @@ impl Date {
                 Some(ret)
             }
             DateRolling::ModifiedPreceding => {
+                let target = self.checked_add(period)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Preceding)?;
-                if ret.month() == self.month() {
+                if (ret.year(), ret.month()) == (target.year(), target.month()) {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Following)
-- 
2.43.0


From b1f4003d08018d25d8df2bfc3ffc839c7303e33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 08/16] fix: adding years overflows i32 instead of returning
 None

---
 crates/qlab-time/src/date.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/qlab-time/src/date.rs b/crates/qlab-time/src/date.rs
index 676466b..f58c6c3 100644
--- a/crates/qlab-time/src/date.rs
+++ b/crates/qlab-time/src/date.rs
@@ -70,12 +70,12 @@ impl Date {
     /// `None` if the resulting date is not valid.
     #[must_use]
     pub fn checked_add_years(self, rhs_years: Years) -> Option<Self> {
-        self.0.with_year(self.0.year() + rhs_years.0).map_or_else(
+        let year = self.0.year().checked_add(rhs_years.0)?;
+        self.0.with_year(year).map_or_else(
             || {
-                self.0.with_day(28).and_then(|date| {
-                    date.with_year(self.0.year() + rhs_years.0)
-                        .map(std::convert::Into::into)
-                })
+                self.0
+                    .with_day(28)
+                    .and_then(|date| date.with_year(year).map(std::convert::Into::into))
             },
             |date| Some(date.into()),
         )
-- 
2.43.0


From 8ac4d326ea68cf870ec52cda9ae233f02f3c2e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 09/16] fix: a bond without a regular coupon date panics
 instead of returning None

---
 crates/qlab-instrument/src/bond.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-instrument/src/bond.rs b/crates/qlab-instrument/src/bond.rs
index 79f8fa2..49f2692 100644
--- a/crates/qlab-instrument/src/bond.rs
+++ b/crates/qlab-instrument/src/bond.rs
@@ -108,19 +108,20 @@ impl<V: Value> Bond<V> {
         regular_coupon_payment: V,
         bond_cash_flows: &mut [BondCashFlow<V>],
     ) -> Option<()> {
+        let first_cash_flow = bond_cash_flows.first_mut()?;
         let first_prior = first_coupon_date.checked_sub_months(months_in_regular_coupon_period)?;
         match first_prior.cmp(&issue_date) {
             Ordering::Less => {
                 let coupon_fraction = V::from_i64(first_coupon_date - issue_date)?
                     / V::from_i64(first_coupon_date - first_prior)?;
-                bond_cash_flows[0].payment_amount *= coupon_fraction;
+                first_cash_flow.payment_amount *= coupon_fraction;
             }
             Ordering::Greater => {
                 let second_prior =
                     first_prior.checked_sub_months(months_in_regular_coupon_period)?;
                 let coupon_fraction = V::from_i64(first_prior - issue_date)?
                     / V::from_i64(first_prior - second_prior)?;
-                bond_cash_flows[0].payment_amount += coupon_fraction * regular_coupon_payment;
+                first_cash_flow.payment_amount += coupon_fraction * regular_coupon_payment;
             }
             Ordering::Equal => {}
         }
-- 
2.43.0


From 4b6e63e4e53a9b5971d77deb08a139eed3d771c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 10/16] fix: regular coupon dates drift off the month end after
 a short month

---
 crates/qlab-instrument/src/bond.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/qlab-instrument/src/bond.rs b/crates/qlab-instrument/src/bond.rs
index 49f2692..6a10fc8 100644
--- a/crates/qlab-instrument/src/bond.rs
+++ b/crates/qlab-instrument/src/bond.rs
@@ -68,6 +68,7 @@ impl<V: Value> Bond<V> {
         let regular_coupon_payment = coupon_rate * face_value / V::from_u8(coupon_frequency as u8)?;
 
         let mut regular_due_date = first_coupon_date;
+        let mut months_from_first_coupon = 0;
         let mut bond_cash_flows = Vec::new();
 
         while regular_due_date <= penultimate_coupon_date {
@@ -77,8 +78,9 @@ impl<V: Value> Bond<V> {
                 payment_date,
                 payment_amount: regular_coupon_payment,
             });
+            months_from_first_coupon += 12 / coupon_frequency as u32;
             regular_due_date =
-                regular_due_date.checked_add_months(months_in_regular_coupon_period)?;
+                first_coupon_date.checked_add_months(Months::new(months_from_first_coupon))?;
         }
         Self::first_cash_flow(
             issue_date,
-- 
2.43.0


From 0d0c11063825399852cda0634395258635da6bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 11/16] fix: business_days_between inverts include_first and
 panics on equal dates

---
 third-parties/calendar/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/third-parties/calendar/src/lib.rs b/third-parties/calendar/src/lib.rs
index 641192d..237354c 100644
--- a/third-parties/calendar/src/lib.rs
+++ b/third-parties/calendar/src/lib.rs
@@ -206,18 +206,18 @@ pub trait Calendar: Debug {
         include_first: Option<bool>,
         include_last: Option<bool>,
     ) -> i64 {
-        if from > to {
-            return -self.business_days_between(to, from, include_first, include_last);
-        }
         let include_first = include_first.unwrap_or(true);
         let include_last = include_last.unwrap_or(false);
+        if from > to {
+            return -self.business_days_between(to, from, Some(include_last), Some(include_first));
+        }
         let mut day_count = 0;
         let day_diff = ((to + Duration::days(i64::from(include_last)))
-            - (from + Duration::days(i64::from(include_first))))
+            - (from + Duration::days(i64::from(!include_first))))
         .num_days();
-        for date in (from + Duration::days(i64::from(include_first)))
+        for date in (from + Duration::days(i64::from(!include_first)))
             .iter_days()
-            .take(usize::try_from(day_diff).unwrap())
+            .take(usize::try_from(day_diff).unwrap_or(0))
         {
             if self.is_business_day(date) {
                 day_count += 1;
-- 
2.43.0


From 7ae3ef966108fea5a6c9ecba14b51cc9c8085ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 12/16] fix: the Thomas back substitution skips the last but
 one unknown

---
 crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs b/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
index 81b613b..5803b1b 100644
--- a/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
+++ b/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
@@ -95,7 +95,7 @@ fn solve_with_thomas_algorithm_unchecked<V: Value>(
     }
 
     /* loop from X - 2 to 0 inclusive */
-    for ix in (0..matrix_size - 2).rev() {
+    for ix in (0..matrix_size - 1).rev() {
         let temp = scratch[ix] * x[ix + 1];
         x[ix] -= temp;
     }
-- 
2.43.0


From 91a55fc2f1c2faaac7ffaada955ed6411736972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 13/16] fix: Hermite accepts fewer than three points and panics
 on none

---
 crates/qlab-math/src/interpolation/spline/hermite.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/qlab-math/src/interpolation/spline/hermite.rs b/crates/qlab-math/src/interpolation/spline/hermite.rs
index 035818d..e63c9d3 100644
--- a/crates/qlab-math/src/interpolation/spline/hermite.rs
+++ b/crates/qlab-math/src/interpolation/spline/hermite.rs
@@ -31,6 +31,11 @@ impl<V: Value> Hermite<V> {
     /// # Panics
     /// Will panic if `V` fail to cast constants.
     pub fn try_new(raw_points: &[(V, V, V)]) -> Result<Self, InterpolationError<V>> {
+        if raw_points.len() < 3 {
+            return Err(InterpolationError::InsufficientPointsError(
+                raw_points.len(),
+            ));
+        }
         let mut temp = raw_points[0].0;
 
         let mut points = Vec::new();
-- 
2.43.0


From e43348c3b63976a4401f7035ff470145e76d8bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 14/16] fix: Linear accepts too few or unordered points and
 panics on evaluation

---
 crates/qlab-math/src/interpolation/linear.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/qlab-math/src/interpolation/linear.rs b/crates/qlab-math/src/interpolation/linear.rs
index 3f24735..c561f91 100644
--- a/crates/qlab-math/src/interpolation/linear.rs
+++ b/crates/qlab-math/src/interpolation/linear.rs
@@ -48,8 +48,18 @@ impl<V: Real> Linear<V> {
 impl<V: Value> Interpolator for Linear<V> {
     type Value = V;
     fn try_fit(mut self, raw_points: &[(V, V)]) -> Result<Self, InterpolationError<V>> {
+        if raw_points.len() < 2 {
+            return Err(InterpolationError::InsufficientPointsError(
+                raw_points.len(),
+            ));
+        }
+        let mut temp = raw_points[0].0;
         let mut points = Vec::with_capacity(raw_points.len());
         for &(x, y) in raw_points {
+            if x < temp {
+                return Err(InterpolationError::PointOrderError);
+            }
+            temp = x;
             points.push(Point2D { x, y });
         }
         self.points = points;
-- 
2.43.0


From c74a73f43a93e8c4766ef35068353607ca6a4817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:20 +0000
Subject: [PATCH 15/16] fix: the natural spline through three points ignores
 the last ordinate

---
 .../src/interpolation/spline/natural_cubic.rs         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
index 093321f..e72ed49 100644
--- a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
+++ b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
@@ -55,13 +55,14 @@ impl<V: Value> Interpolator for NaturalCubic<V> {
                 b_upper_diagonals.push(h_next / V::from_i8(6).unwrap());
                 c_upper_diagonals.push(h_next.recip());
             }
+            let mut boundary = V::zero();
             if i == 1 {
-                m.push(raw_points[i - 1].1 / h);
-            } else if i + 2 == raw_points.len() {
-                m.push(raw_points[i + 1].1 / h_next);
-            } else {
-                m.push(V::zero());
+                boundary += raw_points[i - 1].1 / h;
             }
+            if i + 2 == raw_points.len() {
+                boundary += raw_points[i + 1].1 / h_next;
+            }
+            m.push(boundary);
             b_diagonals.push((h + h_next) / V::from_i8(3).unwrap());
             c_diagonals.push(-(h.recip() + h_next.recip()));
         }
-- 
2.43.0


From 507d7fc525ef89ba60b8854966f84d694ac5ac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:20 +0000
Subject: [PATCH 16/16] fix: the last Catmull-Rom segment misses the last node

---
 crates/qlab-math/src/interpolation/spline/catmull_rom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
index 8f3202a..c2e2f05 100644
--- a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
+++ b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
@@ -111,7 +111,7 @@ impl<V: Value> Interpolator for CatmullRom<V> {
                 Matrix4::new(
                     -alpha,
                     V::one(),
-                    -V::one() * alpha,
+                    -V::one() + alpha,
                     V::zero(),
                     V::from_i8(2).unwrap() * alpha,
                     V::from_i8(-2).unwrap(),
-- 
2.43.0

