//! Reference functions.  Each `s_x` states what `r_x` of lib.rs has to compute, over the documented
//! behaviour of chrono dates and over the same uninterpreted functions.  They are analysed by the
//! same abstract interpreter as the library and compared with it; nothing here is ever run.
//! `unspecified()` marks inputs about which the property says nothing.
use chrono::{Datelike, NaiveDate, Weekday};
use qlab_error::{ComputeError, InterpolationError, QLabError, QLabResult};
use qlab_time::date_rolling::DateRolling;
use std::cmp::Ordering;

use crate::OpaqueInterp;

// twins of the uninterpreted functions (same name: same function for the analyzer)
#[inline(never)]
pub fn opaque_qbiz(_d: NaiveDate) -> bool {
    true
}
#[inline(never)]
pub fn opaque_nbiz(tag: u32, _d: NaiveDate) -> bool {
    tag == 0
}
#[inline(never)]
pub fn opaque_period(_d: NaiveDate) -> Option<NaiveDate> {
    None
}
#[inline(never)]
pub fn opaque_dcf(_a: NaiveDate, _b: NaiveDate) -> QLabResult<f64> {
    Ok(0.0)
}
#[inline(never)]
pub fn unspecified() -> ! {
    panic!("unspecified")
}
fn require(c: bool) {
    if !c {
        unspecified()
    }
}
fn invalid() -> QLabError {
    QLabError::ComputeError(ComputeError::InvalidInput("".into()))
}
fn uninterpolated() -> QLabError {
    QLabError::ComputeError(ComputeError::InterpolationError)
}

// ---------------------------------------------------------------- dates
pub fn s_from_ymd(y: i32, m: u32, d: u32) -> Option<NaiveDate> {
    NaiveDate::from_ymd_opt(y, m, d)
}
pub fn s_date_from_naive(d: NaiveDate) -> NaiveDate {
    d
}
pub fn s_year(d: NaiveDate) -> i32 {
    d.year()
}
pub fn s_month(d: NaiveDate) -> u32 {
    d.month()
}
pub fn s_day(d: NaiveDate) -> u32 {
    d.day()
}
pub fn s_serial(d: NaiveDate) -> i32 {
    d.num_days_from_ce()
}
pub fn s_leap(d: NaiveDate) -> bool {
    let y = d.year();
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
pub fn s_sub(a: NaiveDate, b: NaiveDate) -> i64 {
    a.num_days_from_ce() as i64 - b.num_days_from_ce() as i64
}
pub fn s_lt(a: NaiveDate, b: NaiveDate) -> bool {
    a.num_days_from_ce() < b.num_days_from_ce()
}
pub fn s_le(a: NaiveDate, b: NaiveDate) -> bool {
    a.num_days_from_ce() <= b.num_days_from_ce()
}
pub fn s_gt(a: NaiveDate, b: NaiveDate) -> bool {
    a.num_days_from_ce() > b.num_days_from_ce()
}
pub fn s_ge(a: NaiveDate, b: NaiveDate) -> bool {
    a.num_days_from_ce() >= b.num_days_from_ce()
}
pub fn s_eq(a: NaiveDate, b: NaiveDate) -> bool {
    a.num_days_from_ce() == b.num_days_from_ce()
}
pub fn s_ne(a: NaiveDate, b: NaiveDate) -> bool {
    a.num_days_from_ce() != b.num_days_from_ce()
}
pub fn s_cmp(a: NaiveDate, b: NaiveDate) -> Ordering {
    a.num_days_from_ce().cmp(&b.num_days_from_ce())
}
pub fn s_partial_cmp(a: NaiveDate, b: NaiveDate) -> Option<Ordering> {
    Some(a.num_days_from_ce().cmp(&b.num_days_from_ce()))
}
pub fn s_add_days(d: NaiveDate, n: u64) -> Option<NaiveDate> {
    d.checked_add_days(chrono::Days::new(n))
}
pub fn s_sub_days(d: NaiveDate, n: u64) -> Option<NaiveDate> {
    d.checked_sub_days(chrono::Days::new(n))
}
pub fn s_succ(d: NaiveDate) -> Option<NaiveDate> {
    d.checked_add_days(chrono::Days::new(1))
}
pub fn s_pred(d: NaiveDate) -> Option<NaiveDate> {
    d.checked_sub_days(chrono::Days::new(1))
}
pub fn s_add_months(d: NaiveDate, n: u32) -> Option<NaiveDate> {
    d.checked_add_months(chrono::Months::new(n))
}
pub fn s_sub_months(d: NaiveDate, n: u32) -> Option<NaiveDate> {
    d.checked_sub_months(chrono::Months::new(n))
}
pub fn s_add_years(d: NaiveDate, n: i32) -> Option<NaiveDate> {
    let y = d.year().checked_add(n)?;
    match d.with_year(y) {
        Some(x) => Some(x),
        None if d.month() == 2 && d.day() == 29 => NaiveDate::from_ymd_opt(y, 2, 28),
        None => None,
    }
}
pub fn s_period_days(d: NaiveDate, n: u64) -> Option<NaiveDate> {
    s_add_days(d, n)
}
pub fn s_period_months(d: NaiveDate, n: u32) -> Option<NaiveDate> {
    s_add_months(d, n)
}
pub fn s_period_years(d: NaiveDate, n: i32) -> Option<NaiveDate> {
    s_add_years(d, n)
}
pub fn s_weekend_roll(d: NaiveDate) -> Option<NaiveDate> {
    match d.weekday() {
        Weekday::Sat => d.checked_add_days(chrono::Days::new(2)),
        Weekday::Sun => d.checked_add_days(chrono::Days::new(1)),
        _ => Some(d),
    }
}

// ---------------------------------------------------------------- rolling
fn up(mut d: NaiveDate) -> Option<NaiveDate> {
    while !opaque_qbiz(d) {
        d = d.succ_opt()?;
    }
    Some(d)
}
fn down(mut d: NaiveDate) -> Option<NaiveDate> {
    while !opaque_qbiz(d) {
        d = d.pred_opt()?;
    }
    Some(d)
}
fn same_month(a: NaiveDate, b: NaiveDate) -> bool {
    a.year() == b.year() && a.month() == b.month()
}
fn roll(t: NaiveDate, r: DateRolling) -> Option<NaiveDate> {
    match r {
        DateRolling::Unadjusted => Some(t),
        DateRolling::Following => up(t),
        DateRolling::Preceding => down(t),
        DateRolling::ModifiedFollowing => {
            let x = up(t)?;
            if same_month(x, t) {
                Some(x)
            } else {
                down(t)
            }
        }
        DateRolling::ModifiedPreceding => {
            let x = down(t)?;
            if same_month(x, t) {
                Some(x)
            } else {
                up(t)
            }
        }
    }
}
pub fn s_roll(d: NaiveDate, r: DateRolling) -> Option<NaiveDate> {
    roll(opaque_period(d)?, r)
}
pub fn s_roll_unadjusted(d: NaiveDate) -> Option<NaiveDate> {
    opaque_period(d)
}
pub fn s_roll_following(d: NaiveDate) -> Option<NaiveDate> {
    up(opaque_period(d)?)
}
pub fn s_roll_preceding(d: NaiveDate) -> Option<NaiveDate> {
    down(opaque_period(d)?)
}
pub fn s_roll_modfollowing(d: NaiveDate) -> Option<NaiveDate> {
    roll(opaque_period(d)?, DateRolling::ModifiedFollowing)
}
pub fn s_roll_modpreceding(d: NaiveDate) -> Option<NaiveDate> {
    roll(opaque_period(d)?, DateRolling::ModifiedPreceding)
}
pub fn s_roll_days(d: NaiveDate, n: u64, r: DateRolling) -> Option<NaiveDate> {
    roll(s_add_days(d, n)?, r)
}
pub fn s_roll_months(d: NaiveDate, n: u32, r: DateRolling) -> Option<NaiveDate> {
    roll(s_add_months(d, n)?, r)
}
pub fn s_roll_years(d: NaiveDate, n: i32, r: DateRolling) -> Option<NaiveDate> {
    roll(s_add_years(d, n)?, r)
}

// ---------------------------------------------------------------- day counts
pub fn s_act360(a: NaiveDate, b: NaiveDate) -> QLabResult<f64> {
    Ok(s_sub(b, a) as f64 / 360.0)
}
pub fn s_act365(a: NaiveDate, b: NaiveDate) -> QLabResult<f64> {
    Ok(s_sub(b, a) as f64 / 365.0)
}
pub fn s_act360_f32(a: NaiveDate, b: NaiveDate) -> QLabResult<f32> {
    Ok(s_sub(b, a) as f32 / 360.0)
}
pub fn s_act365_f32(a: NaiveDate, b: NaiveDate) -> QLabResult<f32> {
    Ok(s_sub(b, a) as f32 / 365.0)
}
fn thirty(a: NaiveDate, b: NaiveDate) -> Option<i64> {
    if a.num_days_from_ce() > b.num_days_from_ce() {
        return None;
    }
    let cap = |d: u32| if d == 31 { 30 } else { d as i64 };
    Some(360 * (b.year() as i64 - a.year() as i64) + 30 * (b.month() as i64 - a.month() as i64) + cap(b.day()) - cap(a.day()))
}
pub fn s_thirty360(a: NaiveDate, b: NaiveDate) -> QLabResult<f64> {
    match thirty(a, b) {
        Some(n) => Ok(n as f64 / 360.0),
        None => Err(invalid()),
    }
}
pub fn s_thirty360_f32(a: NaiveDate, b: NaiveDate) -> QLabResult<f32> {
    match thirty(a, b) {
        Some(n) => Ok(n as f32 / 360.0),
        None => Err(invalid()),
    }
}

// ---------------------------------------------------------------- calendars, generically
pub fn s_cal_last_day(d: NaiveDate) -> NaiveDate {
    let (y, m) = (d.year(), d.month());
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let n = match m {
        2 => {
            if leap {
                29
            } else {
                28
            }
        }
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    };
    d + chrono::Duration::days(n - d.day() as i64)
}
pub fn s_cal_end_of_month(d: NaiveDate) -> NaiveDate {
    let mut x = s_cal_last_day(d);
    while !opaque_nbiz(1, x) {
        x = x.pred_opt().unwrap_or_else(|| unspecified());
    }
    x
}
pub fn s_cal_is_holiday(d: NaiveDate) -> bool {
    !opaque_nbiz(1, d)
}
pub fn s_cal_is_weekend(d: NaiveDate) -> bool {
    d.weekday() == Weekday::Sat || d.weekday() == Weekday::Sun
}
pub fn s_cal_dkmy(d: NaiveDate) -> (u32, Weekday, u32, i32, u32) {
    (d.day(), d.weekday(), d.month(), d.year(), d.ordinal())
}
pub fn s_joint(d: NaiveDate) -> bool {
    opaque_nbiz(1, d) && opaque_nbiz(2, d)
}
pub fn s_joint_holiday(d: NaiveDate) -> bool {
    !opaque_nbiz(1, d) || !opaque_nbiz(2, d)
}
pub fn s_q_biz(d: NaiveDate) -> bool {
    opaque_nbiz(1, d)
}
pub fn s_q_hol(d: NaiveDate) -> bool {
    !opaque_nbiz(1, d)
}
pub fn s_q_default_hol(d: NaiveDate) -> bool {
    !opaque_qbiz(d)
}
/// Business days between two dates, the first counted unless excluded, the last not counted
/// unless included; negative when the dates are given in reverse.
pub fn s_cal_bdb(a: NaiveDate, b: NaiveDate, f: Option<bool>, l: Option<bool>) -> i64 {
    let f = f.unwrap_or(true);
    let l = l.unwrap_or(false);
    if a.num_days_from_ce() <= b.num_days_from_ce() {
        count(a, b, f, l)
    } else {
        -count(b, a, l, f)
    }
}
fn count(a: NaiveDate, b: NaiveDate, first: bool, last: bool) -> i64 {
    let n = b.num_days_from_ce() - a.num_days_from_ce();
    let mut r = 0;
    let mut i = 0;
    while i <= n {
        let d = a + chrono::Duration::days(i as i64);
        let inside = (i > 0 || first) && (i < n || last);
        if inside && opaque_nbiz(1, d) {
            r += 1;
        }
        i += 1;
    }
    r
}

// ---------------------------------------------------------------- errors
pub fn s_err_from_interp(_e: InterpolationError<f64>) -> QLabError {
    uninterpolated()
}
pub fn s_err_from_compute(e: ComputeError) -> QLabError {
    QLabError::ComputeError(e)
}

// ---------------------------------------------------------------- interpolation
type IR<T> = Result<T, InterpolationError<f64>>;

fn fit2(p: &[(f64, f64)], least: usize) -> IR<()> {
    if p.len() < least {
        return Err(InterpolationError::InsufficientPointsError(p.len()));
    }
    let mut eq = false;
    let mut i = 1;
    while i < p.len() {
        if p[i].0 < p[i - 1].0 {
            return Err(InterpolationError::PointOrderError);
        }
        eq = eq || p[i].0 == p[i - 1].0;
        i += 1;
    }
    require(!eq);
    Ok(())
}
pub fn s_linear_fit(p: &[(f64, f64)]) -> IR<()> {
    fit2(p, 2)
}
pub fn s_catmull_fit(p: &[(f64, f64)]) -> IR<()> {
    fit2(p, 3)
}
pub fn s_natural_fit(p: &[(f64, f64)]) -> IR<()> {
    fit2(p, 3)
}
pub fn s_hermite_fit(p: &[(f64, f64, f64)]) -> IR<()> {
    if p.len() < 3 {
        return Err(InterpolationError::InsufficientPointsError(p.len()));
    }
    let mut eq = false;
    let mut i = 1;
    while i < p.len() {
        if p[i].0 < p[i - 1].0 {
            return Err(InterpolationError::PointOrderError);
        }
        eq = eq || p[i].0 == p[i - 1].0;
        i += 1;
    }
    require(!eq);
    Ok(())
}
/// The segment of strictly increasing abscissae x that contains t.
fn segment(x: &[f64], t: f64) -> IR<usize> {
    if t < x[0] {
        return Err(InterpolationError::OutOfLowerBound(t));
    }
    let mut i = 0;
    while i + 1 < x.len() {
        if t <= x[i + 1] {
            return Ok(i);
        }
        i += 1;
    }
    Err(InterpolationError::OutOfUpperBound(t))
}
fn split(p: &[(f64, f64)]) -> (Vec<f64>, Vec<f64>) {
    let mut x = Vec::new();
    let mut y = Vec::new();
    let mut i = 0;
    while i < p.len() {
        x.push(p[i].0);
        y.push(p[i].1);
        i += 1;
    }
    (x, y)
}
/// Only whether and how the evaluation fails.
pub fn s_range(p: &[(f64, f64)], t: f64) -> IR<()> {
    let (x, _) = split(p);
    segment(&x, t)?;
    Ok(())
}
pub fn s_range3(p: &[(f64, f64, f64)], t: f64) -> IR<()> {
    let mut x = Vec::new();
    let mut i = 0;
    while i < p.len() {
        x.push(p[i].0);
        i += 1;
    }
    segment(&x, t)?;
    Ok(())
}
pub fn s_empty(_t: f64) -> IR<f64> {
    Err(InterpolationError::InsufficientPointsError(0))
}
pub fn s_linear(p: &[(f64, f64)], t: f64) -> IR<f64> {
    let (x, y) = split(p);
    let i = segment(&x, t)?;
    Ok((y[i] * (x[i + 1] - t) + y[i + 1] * (t - x[i])) / (x[i + 1] - x[i]))
}
/// A second fit leaves nothing of the first: the result is that of fitting the second nodes alone.
pub fn s_linear_refit(_q: &[(f64, f64)], p: &[(f64, f64)], t: f64) -> IR<f64> {
    crate::r_linear(p, t)
}
pub fn s_catmull_refit(_q: &[(f64, f64)], p: &[(f64, f64)], t: f64) -> IR<f64> {
    crate::r_catmull(p, t)
}
pub fn s_natural_refit(_q: &[(f64, f64)], p: &[(f64, f64)], t: f64) -> IR<f64> {
    crate::r_natural(p, t)
}
/// Cubic with values y0, y1 and slopes d0, d1 at the ends of a segment of length h, at fraction u.
fn cubic(h: f64, u: f64, y0: f64, y1: f64, d0: f64, d1: f64) -> f64 {
    let v = 1.0 - u;
    y0 * (1.0 + 2.0 * u) * v * v + y1 * u * u * (3.0 - 2.0 * u) + h * d0 * u * v * v - h * d1 * u * u * v
}
pub fn s_hermite(p: &[(f64, f64, f64)], t: f64) -> IR<f64> {
    let mut x = Vec::new();
    let mut i = 0;
    while i < p.len() {
        x.push(p[i].0);
        i += 1;
    }
    let i = segment(&x, t)?;
    let h = x[i + 1] - x[i];
    Ok(cubic(h, (t - x[i]) / h, p[i].1, p[i + 1].1, p[i].2, p[i + 1].2))
}
/// Slopes of the Catmull-Rom spline: the chord through the neighbours inside, the chord of the
/// segment itself at the two ends.
pub fn s_catmull(p: &[(f64, f64)], t: f64) -> IR<f64> {
    let (x, y) = split(p);
    let n = x.len();
    let i = segment(&x, t)?;
    let h = x[i + 1] - x[i];
    let chord = (y[i + 1] - y[i]) / h;
    let d0 = if i == 0 { chord } else { (y[i + 1] - y[i - 1]) / (x[i + 1] - x[i - 1]) };
    let d1 = if i + 2 == n { chord } else { (y[i + 2] - y[i]) / (x[i + 2] - x[i]) };
    Ok(cubic(h, (t - x[i]) / h, y[i], y[i + 1], d0, d1))
}
/// What the library computes instead (known finding): the slope at the left end of a segment is
/// taken over twice the segment plus its predecessor.
pub fn s_catmull_known(p: &[(f64, f64)], t: f64) -> IR<f64> {
    let (x, y) = split(p);
    let n = x.len();
    let i = segment(&x, t)?;
    let h = x[i + 1] - x[i];
    let chord = (y[i + 1] - y[i]) / h;
    let d0 = if i == 0 { chord } else { (y[i + 1] - y[i - 1]) / (x[i + 1] - x[i - 1] + h) };
    let d1 = if i + 2 == n { chord } else { (y[i + 2] - y[i]) / (x[i + 2] - x[i]) };
    Ok(cubic(h, (t - x[i]) / h, y[i], y[i + 1], d0, d1))
}
/// Natural cubic spline: the second derivatives solve the continuity equations with zero at both
/// ends (Gaussian elimination on the full matrix).
/// The same by shooting, for many nodes: every second derivative is linear in the one at the
/// second node, which the free right end then determines.
pub fn s_natural_long(p: &[(f64, f64)], t: f64) -> IR<f64> {
    let (x, y) = split(p);
    let n = x.len();
    let s = segment(&x, t)?;
    let mut at = Vec::new();
    let mut by = Vec::new();
    at.push(0.0);
    by.push(0.0);
    at.push(0.0);
    by.push(1.0);
    let mut i = 1;
    while i + 1 < n {
        let h = x[i] - x[i - 1];
        let k = x[i + 1] - x[i];
        let r = 6.0 * ((y[i + 1] - y[i]) / k - (y[i] - y[i - 1]) / h);
        let a = (r - h * at[i - 1] - 2.0 * (h + k) * at[i]) / k;
        let b = (0.0 - h * by[i - 1] - 2.0 * (h + k) * by[i]) / k;
        at.push(a);
        by.push(b);
        i += 1;
    }
    let u = (0.0 - at[n - 1]) / by[n - 1];
    let m0 = at[s] + u * by[s];
    let m1 = at[s + 1] + u * by[s + 1];
    let h = x[s + 1] - x[s];
    let l = t - x[s];
    let g = x[s + 1] - t;
    Ok(m0 * g * g * g / (6.0 * h) + m1 * l * l * l / (6.0 * h) + (y[s] / h - m0 * h / 6.0) * g + (y[s + 1] / h - m1 * h / 6.0) * l)
}
pub fn s_natural(p: &[(f64, f64)], t: f64) -> IR<f64> {
    let (x, y) = split(p);
    let n = x.len();
    let s = segment(&x, t)?;
    let k = n - 2;
    let mut a: Vec<Vec<f64>> = Vec::new();
    let mut i = 0;
    while i < k {
        let mut row = Vec::new();
        let mut j = 0;
        while j < k {
            let v = if j == i {
                2.0 * (x[i + 2] - x[i])
            } else if j == i + 1 {
                x[i + 2] - x[i + 1]
            } else if j + 1 == i {
                x[i + 1] - x[i]
            } else {
                0.0
            };
            row.push(v);
            j += 1;
        }
        row.push(6.0 * ((y[i + 2] - y[i + 1]) / (x[i + 2] - x[i + 1]) - (y[i + 1] - y[i]) / (x[i + 1] - x[i])));
        a.push(row);
        i += 1;
    }
    let mut c = 0;
    while c < k {
        let mut r = 0;
        while r < k {
            if r != c {
                let f = a[r][c] / a[c][c];
                let mut j = 0;
                while j <= k {
                    let v = a[c][j];
                    a[r][j] = a[r][j] - f * v;
                    j += 1;
                }
            }
            r += 1;
        }
        c += 1;
    }
    let mut m = Vec::new();
    m.push(0.0);
    let mut i = 0;
    while i < k {
        m.push(a[i][k] / a[i][i]);
        i += 1;
    }
    m.push(0.0);
    let h = x[s + 1] - x[s];
    let (l, r) = (x[s + 1] - t, t - x[s]);
    Ok((m[s] * l * l * l + m[s + 1] * r * r * r) / (6.0 * h)
        + (y[s] / h - m[s] * h / 6.0) * l
        + (y[s + 1] / h - m[s + 1] * h / 6.0) * r)
}
pub fn s_node(p: &[(f64, f64)], i: usize) -> IR<f64> {
    Ok(p[i].1)
}
pub fn s_node3(p: &[(f64, f64, f64)], i: usize) -> IR<f64> {
    Ok(p[i].1)
}

// ---------------------------------------------------------------- curves
fn fit(x: &[(f64, f64)]) -> QLabResult<OpaqueInterp> {
    match crate::opaque_fit(x) {
        Ok(i) => Ok(i),
        Err(_) => Err(uninterpolated()),
    }
}
fn value(i: &OpaqueInterp, t: f64) -> QLabResult<f64> {
    match crate::opaque_value(i.0, t) {
        Ok(v) => Ok(v),
        Err(_) => Err(uninterpolated()),
    }
}
type Dcf = fn(NaiveDate, NaiveDate) -> QLabResult<f64>;
fn curve(s: NaiveDate, m: &[NaiveDate], y: &[f64]) -> QLabResult<OpaqueInterp> {
    curve_by(opaque_dcf, s, m, y)
}
fn curve_by(dcf: Dcf, s: NaiveDate, m: &[NaiveDate], y: &[f64]) -> QLabResult<OpaqueInterp> {
    if m.len() != y.len() {
        return Err(invalid());
    }
    let mut pts = Vec::new();
    let mut i = 0;
    while i < m.len() {
        let t = dcf(s, m[i])?;
        pts.push((t, y[i]));
        i += 1;
    }
    fit(&pts)
}
/// Discount factor between two dates on a curve of continuously compounded spot yields.
fn df(s: NaiveDate, i: &OpaqueInterp, a: NaiveDate, b: NaiveDate) -> QLabResult<f64> {
    df_by(opaque_dcf, s, i, a, b)
}
fn df_by(dcf: Dcf, s: NaiveDate, i: &OpaqueInterp, a: NaiveDate, b: NaiveDate) -> QLabResult<f64> {
    let (sn, an, bn) = (s.num_days_from_ce(), a.num_days_from_ce(), b.num_days_from_ce());
    if bn < an || an < sn {
        return Err(invalid());
    }
    let t2 = dcf(s, b)?;
    let y2 = value(i, t2)?;
    if an == sn {
        return Ok((-(y2 * t2)).exp());
    }
    let t1 = dcf(s, a)?;
    let y1 = value(i, t1)?;
    Ok((y1 * t1 - y2 * t2).exp())
}
pub fn s_curve_new(s: NaiveDate, m: &[NaiveDate], y: &[f64]) -> QLabResult<()> {
    curve(s, m, y)?;
    Ok(())
}
pub fn s_curve_df(s: NaiveDate, m: &[NaiveDate], y: &[f64], a: NaiveDate, b: NaiveDate) -> QLabResult<f64> {
    let c = curve(s, m, y)?;
    df(s, &c, a, b)
}
pub fn s_curve_new_dated(s: NaiveDate, m: &[NaiveDate], y: &[f64]) -> QLabResult<()> {
    curve_by(s_act365, s, m, y)?;
    Ok(())
}
pub fn s_curve_df_dated(s: NaiveDate, m: &[NaiveDate], y: &[f64], a: NaiveDate, b: NaiveDate) -> QLabResult<f64> {
    let c = curve_by(s_act365, s, m, y)?;
    df_by(s_act365, s, &c, a, b)
}

// ---------------------------------------------------------------- bonds
struct Flow {
    due: NaiveDate,
    paid: NaiveDate,
    amount: f64,
}
fn plus(d: NaiveDate, n: u32) -> Option<NaiveDate> {
    d.checked_add_months(chrono::Months::new(n))
}
fn minus(d: NaiveDate, n: u32) -> Option<NaiveDate> {
    d.checked_sub_months(chrono::Months::new(n))
}
fn days(a: NaiveDate, b: NaiveDate) -> f64 {
    s_sub(b, a) as f64
}
fn flows(issue: NaiveDate, first: NaiveDate, pen: NaiveDate, maturity: NaiveDate, rate: f64, face: f64) -> Option<Vec<Flow>> {
    let regular = rate * face / 2.0;
    let mut out: Vec<Flow> = Vec::new();
    let mut due = first;
    let mut k = 0;
    while s_le(due, pen) {
        let paid = s_weekend_roll(due)?;
        out.push(Flow { due, paid, amount: regular });
        k += 6;
        due = plus(first, k)?;
    }
    let prior = minus(first, 6)?;
    if out.is_empty() {
        return None;
    }
    if s_gt(issue, prior) {
        // short first period
        out[0].amount = regular * days(issue, first) / days(prior, first);
    } else if s_lt(issue, prior) {
        // long first period: a whole one and part of the one before
        let before = minus(prior, 6)?;
        out[0].amount = regular + regular * days(issue, prior) / days(before, prior);
    }
    let end = plus(pen, 6)?;
    let last = if s_lt(maturity, end) {
        regular * days(pen, maturity) / days(pen, end)
    } else if s_gt(maturity, end) {
        let after = plus(end, 6)?;
        regular + regular * days(end, maturity) / days(end, after)
    } else {
        regular
    };
    out.push(Flow { due: maturity, paid: maturity, amount: face + last });
    Some(out)
}
fn ordered(issue: NaiveDate, first: NaiveDate, pen: NaiveDate, maturity: NaiveDate) -> bool {
    s_lt(issue, first) && s_le(first, pen) && s_lt(pen, maturity)
}
fn pv(f: &[Flow], settle: NaiveDate, base: NaiveDate, c: &OpaqueInterp) -> QLabResult<f64> {
    let mut r = 0.0;
    let mut i = 0;
    while i < f.len() {
        if s_lt(settle, f[i].due) {
            r = r + df(base, c, settle, f[i].paid)? * f[i].amount;
        }
        i += 1;
    }
    Ok(r)
}
pub fn s_bond(
    issue: NaiveDate,
    first: NaiveDate,
    pen: NaiveDate,
    maturity: NaiveDate,
    rate: f64,
    face: f64,
    settle: NaiveDate,
    base: NaiveDate,
    node: NaiveDate,
    yld: f64,
) -> Option<QLabResult<f64>> {
    require(ordered(issue, first, pen, maturity));
    let f = flows(issue, first, pen, maturity, rate, face)?;
    Some(match curve(base, &[node], &[yld]) {
        Ok(c) => pv(&f, settle, base, &c),
        Err(e) => Err(e),
    })
}
pub fn s_curve_df_error(s: NaiveDate, m: &[NaiveDate], y: &[f64], a: NaiveDate, b: NaiveDate) -> QLabResult<()> {
    s_curve_df(s, m, y, a, b).map(|_| ())
}
pub fn s_bond_error(
    issue: NaiveDate,
    first: NaiveDate,
    pen: NaiveDate,
    maturity: NaiveDate,
    rate: f64,
    face: f64,
    settle: NaiveDate,
    base: NaiveDate,
    node: NaiveDate,
    yld: f64,
) -> Option<QLabResult<()>> {
    s_bond(issue, first, pen, maturity, rate, face, settle, base, node, yld).map(|r| r.map(|_| ()))
}
/// Priced at issue on a curve that starts there: every flow counts.
pub fn s_bond_at_issue(
    issue: NaiveDate,
    first: NaiveDate,
    pen: NaiveDate,
    maturity: NaiveDate,
    rate: f64,
    face: f64,
    node: NaiveDate,
    yld: f64,
) -> Option<QLabResult<f64>> {
    s_bond(issue, first, pen, maturity, rate, face, issue, issue, node, yld)
}
pub fn s_bond_exists(issue: NaiveDate, first: NaiveDate, pen: NaiveDate, maturity: NaiveDate, rate: f64, face: f64) -> bool {
    if s_gt(first, pen) {
        return false;
    }
    require(ordered(issue, first, pen, maturity));
    flows(issue, first, pen, maturity, rate, face).is_some()
}
/// As s_bond, on a curve that has a yield at every time and counts days over 365.
pub fn s_bond_dated(issue: NaiveDate, first: NaiveDate, pen: NaiveDate, maturity: NaiveDate, rate: f64, face: f64, settle: NaiveDate) -> Option<QLabResult<f64>> {
    require(ordered(issue, first, pen, maturity));
    let f = flows(issue, first, pen, maturity, rate, face)?;
    let mut r = 0.0;
    let mut i = 0;
    while i < f.len() {
        if s_lt(settle, f[i].due) {
            let t = days(settle, f[i].paid) / 365.0;
            r = r + (-(crate::opaque_yield(t) * t)).exp() * f[i].amount;
        }
        i += 1;
    }
    Some(Ok(r))
}
