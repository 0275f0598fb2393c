//! Roots of the analysis.  Nothing here is ever run: the extractor takes the monomorphic MIR that
//! is reachable from the `r_*` functions below and from every implementation of the calendar trait.
//! The `Opaque*` types stand for an arbitrary implementation of the trait they implement: the
//! analyzer treats the functions named `opaque_*` as uninterpreted.
#![allow(clippy::all)]
pub mod spec;

use calendar::Calendar as NCalendar;
use chrono::NaiveDate;
use qlab_error::{ComputeError, InterpolationError, QLabError, QLabResult};
use qlab_instrument::bond::Bond;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::hermite::Hermite;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::calendar::Calendar as QCalendar;
use qlab_time::date::Date;
use qlab_time::date_rolling::DateRolling;
use qlab_time::day_count::act_360::Act360;
use qlab_time::day_count::act_365::Act365;
use qlab_time::day_count::thirty_360::Thirty360;
use qlab_time::day_count::DayCount;
use qlab_time::frequency::Frequency;
use qlab_time::period::days::Days;
use qlab_time::period::months::Months;
use qlab_time::period::years::Years;
use qlab_time::period::Period;

// ---------------------------------------------------------------- opaque trait implementations
#[inline(never)]
pub fn opaque_nbiz(tag: u32, _date: NaiveDate) -> bool {
    tag == 0
}
#[inline(never)]
pub fn opaque_qbiz(_date: Date) -> bool {
    true
}
#[inline(never)]
pub fn opaque_period(_d: Date) -> Option<Date> {
    None
}
#[inline(never)]
pub fn opaque_dcf(_a: Date, _b: Date) -> QLabResult<f64> {
    Ok(0.0)
}
#[inline(never)]
pub fn opaque_fit(_x: &[(f64, f64)]) -> Result<OpaqueInterp, InterpolationError<f64>> {
    Ok(OpaqueInterp(0))
}
#[inline(never)]
pub fn opaque_value(_id: u64, _t: f64) -> Result<f64, InterpolationError<f64>> {
    Ok(0.0)
}

#[inline(never)]
pub fn opaque_yield(_t: f64) -> f64 {
    0.0
}

/// An arbitrary calendar of the `calendar` crate.
#[derive(Debug)]
pub struct OpaqueN1;
#[derive(Debug)]
pub struct OpaqueN2;
impl NCalendar for OpaqueN1 {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        opaque_nbiz(1, date)
    }
}
impl NCalendar for OpaqueN2 {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        opaque_nbiz(2, date)
    }
}
/// An arbitrary calendar of the date crate.
pub struct OpaqueQ;
impl QCalendar for OpaqueQ {
    fn is_business_day(&self, date: Date) -> bool {
        opaque_qbiz(date)
    }
}
#[derive(Clone, Copy)]
pub struct OpaqueP;
impl Period for OpaqueP {
    fn checked_add(self, d: Date) -> Option<Date> {
        opaque_period(d)
    }
}
#[derive(Clone, Copy)]
pub struct OpaqueDC;
/// Conversion back to the only numeric type the roots use.
pub trait FromF64 {
    fn conv(x: f64) -> Self;
}
impl DayCount for OpaqueDC {
    fn calculate_day_count_fraction<V: Value>(a: Date, b: Date) -> QLabResult<V> {
        match opaque_dcf(a, b) {
            Ok(x) => Ok(V::from_f64(x).unwrap()),
            Err(e) => Err(e),
        }
    }
}
pub struct OpaqueInterp(pub u64);
impl Default for OpaqueInterp {
    fn default() -> Self {
        OpaqueInterp(0)
    }
}
impl Interpolator for OpaqueInterp {
    type Value = f64;
    fn try_fit(self, x: &[(f64, f64)]) -> Result<Self, InterpolationError<f64>> {
        opaque_fit(x)
    }
    fn try_value(&self, t: f64) -> Result<f64, InterpolationError<f64>> {
        opaque_value(self.0, t)
    }
}
/// An interpolator that never fails.
#[derive(Default)]
pub struct TotalInterp;
impl Interpolator for TotalInterp {
    type Value = f64;
    fn try_fit(self, _x: &[(f64, f64)]) -> Result<Self, InterpolationError<f64>> {
        Ok(self)
    }
    fn try_value(&self, t: f64) -> Result<f64, InterpolationError<f64>> {
        Ok(opaque_yield(t))
    }
}

// ---------------------------------------------------------------- dates
pub fn r_from_ymd(y: i32, m: u32, d: u32) -> Option<Date> {
    Date::from_ymd(y, m, d)
}
pub fn r_date_from_naive(d: NaiveDate) -> Date {
    Date::from(d)
}
pub fn r_year(d: Date) -> i32 {
    d.year()
}
pub fn r_month(d: Date) -> u32 {
    d.month()
}
pub fn r_day(d: Date) -> u32 {
    d.day()
}
pub fn r_serial(d: Date) -> i32 {
    d.serial_date()
}
pub fn r_leap(d: Date) -> bool {
    d.leap_year()
}
pub fn r_sub(a: Date, b: Date) -> i64 {
    a - b
}
pub fn r_lt(a: Date, b: Date) -> bool {
    a < b
}
pub fn r_le(a: Date, b: Date) -> bool {
    a <= b
}
pub fn r_gt(a: Date, b: Date) -> bool {
    a > b
}
pub fn r_ge(a: Date, b: Date) -> bool {
    a >= b
}
pub fn r_eq(a: Date, b: Date) -> bool {
    a == b
}
pub fn r_ne(a: Date, b: Date) -> bool {
    a != b
}
pub fn r_cmp(a: Date, b: Date) -> std::cmp::Ordering {
    a.cmp(&b)
}
pub fn r_partial_cmp(a: Date, b: Date) -> Option<std::cmp::Ordering> {
    a.partial_cmp(&b)
}
pub fn r_date_display(a: Date) -> String {
    format!("{}", a)
}
pub fn r_add_days(d: Date, n: u64) -> Option<Date> {
    d.checked_add_days(Days::new(n))
}
pub fn r_sub_days(d: Date, n: u64) -> Option<Date> {
    d.checked_sub_days(Days::new(n))
}
pub fn r_succ(d: Date) -> Option<Date> {
    d.succ_opt()
}
pub fn r_pred(d: Date) -> Option<Date> {
    d.pred_opt()
}
pub fn r_add_months(d: Date, n: u32) -> Option<Date> {
    d.checked_add_months(Months::new(n))
}
pub fn r_sub_months(d: Date, n: u32) -> Option<Date> {
    d.checked_sub_months(Months::new(n))
}
pub fn r_add_years(d: Date, n: i32) -> Option<Date> {
    d.checked_add_years(Years::new(n))
}
pub fn r_weekend_roll(d: Date) -> Option<Date> {
    d.weekend_roll()
}
pub fn r_period_days(d: Date, n: u64) -> Option<Date> {
    Days::new(n).checked_add(d)
}
pub fn r_period_months(d: Date, n: u32) -> Option<Date> {
    Months::new(n).checked_add(d)
}
pub fn r_period_years(d: Date, n: i32) -> Option<Date> {
    Years::new(n).checked_add(d)
}
pub fn r_roll(d: Date, r: DateRolling) -> Option<Date> {
    d.checked_roll(OpaqueP, &OpaqueQ, r)
}
pub fn r_roll_unadjusted(d: Date) -> Option<Date> {
    d.checked_roll(OpaqueP, &OpaqueQ, DateRolling::Unadjusted)
}
pub fn r_roll_following(d: Date) -> Option<Date> {
    d.checked_roll(OpaqueP, &OpaqueQ, DateRolling::Following)
}
pub fn r_roll_modfollowing(d: Date) -> Option<Date> {
    d.checked_roll(OpaqueP, &OpaqueQ, DateRolling::ModifiedFollowing)
}
pub fn r_roll_preceding(d: Date) -> Option<Date> {
    d.checked_roll(OpaqueP, &OpaqueQ, DateRolling::Preceding)
}
pub fn r_roll_modpreceding(d: Date) -> Option<Date> {
    d.checked_roll(OpaqueP, &OpaqueQ, DateRolling::ModifiedPreceding)
}
pub fn r_roll_days(d: Date, n: u64, r: DateRolling) -> Option<Date> {
    d.checked_roll(Days::new(n), &OpaqueQ, r)
}
pub fn r_roll_months(d: Date, n: u32, r: DateRolling) -> Option<Date> {
    d.checked_roll(Months::new(n), &OpaqueQ, r)
}
pub fn r_roll_years(d: Date, n: i32, r: DateRolling) -> Option<Date> {
    d.checked_roll(Years::new(n), &OpaqueQ, r)
}

// ---------------------------------------------------------------- day counts
pub fn r_act360(a: Date, b: Date) -> QLabResult<f64> {
    Act360::calculate_day_count_fraction(a, b)
}
pub fn r_act365(a: Date, b: Date) -> QLabResult<f64> {
    Act365::calculate_day_count_fraction(a, b)
}
pub fn r_thirty360(a: Date, b: Date) -> QLabResult<f64> {
    Thirty360::calculate_day_count_fraction(a, b)
}
pub fn r_act360_f32(a: Date, b: Date) -> QLabResult<f32> {
    Act360::calculate_day_count_fraction(a, b)
}
pub fn r_act365_f32(a: Date, b: Date) -> QLabResult<f32> {
    Act365::calculate_day_count_fraction(a, b)
}
pub fn r_thirty360_f32(a: Date, b: Date) -> QLabResult<f32> {
    Thirty360::calculate_day_count_fraction(a, b)
}

// ---------------------------------------------------------------- interpolation
type IR<T> = Result<T, InterpolationError<f64>>;

pub fn r_linear_fit(p: &[(f64, f64)]) -> IR<()> {
    Linear::default().try_fit(p).map(|_| ())
}
pub fn r_catmull_fit(p: &[(f64, f64)]) -> IR<()> {
    CatmullRom::default().try_fit(p).map(|_| ())
}
pub fn r_natural_fit(p: &[(f64, f64)]) -> IR<()> {
    NaturalCubic::default().try_fit(p).map(|_| ())
}
pub fn r_hermite_fit(p: &[(f64, f64, f64)]) -> IR<()> {
    Hermite::try_new(p).map(|_| ())
}
pub fn r_linear(p: &[(f64, f64)], t: f64) -> IR<f64> {
    Linear::default().try_fit(p)?.try_value(t)
}
pub fn r_linear_from_new(p: &[(f64, f64)], t: f64) -> IR<f64> {
    Linear::new().try_fit(p)?.try_value(t)
}
pub fn r_catmull(p: &[(f64, f64)], t: f64) -> IR<f64> {
    CatmullRom::default().try_fit(p)?.try_value(t)
}
pub fn r_natural(p: &[(f64, f64)], t: f64) -> IR<f64> {
    NaturalCubic::default().try_fit(p)?.try_value(t)
}
pub fn r_hermite(p: &[(f64, f64, f64)], t: f64) -> IR<f64> {
    Hermite::try_new(p)?.try_value(t)
}
pub fn r_linear_refit(q: &[(f64, f64)], p: &[(f64, f64)], t: f64) -> IR<f64> {
    Linear::default().try_fit(q)?.try_fit(p)?.try_value(t)
}
pub fn r_catmull_refit(q: &[(f64, f64)], p: &[(f64, f64)], t: f64) -> IR<f64> {
    CatmullRom::default().try_fit(q)?.try_fit(p)?.try_value(t)
}
pub fn r_natural_refit(q: &[(f64, f64)], p: &[(f64, f64)], t: f64) -> IR<f64> {
    NaturalCubic::default().try_fit(q)?.try_fit(p)?.try_value(t)
}
pub fn r_linear_range(p: &[(f64, f64)], t: f64) -> IR<()> {
    r_linear(p, t).map(|_| ())
}
pub fn r_catmull_range(p: &[(f64, f64)], t: f64) -> IR<()> {
    r_catmull(p, t).map(|_| ())
}
pub fn r_natural_range(p: &[(f64, f64)], t: f64) -> IR<()> {
    r_natural(p, t).map(|_| ())
}
pub fn r_hermite_range(p: &[(f64, f64, f64)], t: f64) -> IR<()> {
    r_hermite(p, t).map(|_| ())
}
pub fn r_linear_node(p: &[(f64, f64)], i: usize) -> IR<f64> {
    r_linear(p, p[i].0)
}
pub fn r_catmull_node(p: &[(f64, f64)], i: usize) -> IR<f64> {
    r_catmull(p, p[i].0)
}
pub fn r_natural_node(p: &[(f64, f64)], i: usize) -> IR<f64> {
    r_natural(p, p[i].0)
}
pub fn r_hermite_node(p: &[(f64, f64, f64)], i: usize) -> IR<f64> {
    r_hermite(p, p[i].0)
}
pub fn r_linear_empty(t: f64) -> IR<f64> {
    Linear::<f64>::default().try_value(t)
}
pub fn r_linear_new_empty(t: f64) -> IR<f64> {
    Linear::<f64>::new().try_value(t)
}
pub fn r_catmull_empty(t: f64) -> IR<f64> {
    CatmullRom::<f64>::default().try_value(t)
}
pub fn r_natural_empty(t: f64) -> IR<f64> {
    NaturalCubic::<f64>::default().try_value(t)
}
pub fn r_linear_f32(p: &[(f32, f32)], t: f32) -> Result<f32, InterpolationError<f32>> {
    Linear::default().try_fit(p)?.try_value(t)
}
pub fn r_catmull_f32(p: &[(f32, f32)], t: f32) -> Result<f32, InterpolationError<f32>> {
    CatmullRom::default().try_fit(p)?.try_value(t)
}
pub fn r_natural_f32(p: &[(f32, f32)], t: f32) -> Result<f32, InterpolationError<f32>> {
    NaturalCubic::default().try_fit(p)?.try_value(t)
}
pub fn r_hermite_f32(p: &[(f32, f32, f32)], t: f32) -> Result<f32, InterpolationError<f32>> {
    Hermite::try_new(p)?.try_value(t)
}

// ---------------------------------------------------------------- curves
type Curve = YieldCurve<OpaqueDC, OpaqueInterp>;

pub fn r_curve_new(s: Date, m: &[Date], y: &[f64]) -> QLabResult<()> {
    Curve::new(s, m, y).map(|_| ())
}
pub fn r_curve_df(s: Date, m: &[Date], y: &[f64], a: Date, b: Date) -> QLabResult<f64> {
    Curve::new(s, m, y)?.discount_factor(a, b)
}
pub fn r_curve_new_dated(s: Date, m: &[Date], y: &[f64]) -> QLabResult<()> {
    YieldCurve::<Act365, OpaqueInterp>::new(s, m, y).map(|_| ())
}
pub fn r_curve_df_dated(s: Date, m: &[Date], y: &[f64], a: Date, b: Date) -> QLabResult<f64> {
    YieldCurve::<Act365, OpaqueInterp>::new(s, m, y)?.discount_factor(a, b)
}
pub fn r_curve_act365_natural(s: Date, m: &[Date], y: &[f64], a: Date, b: Date) -> QLabResult<f64> {
    YieldCurve::<Act365, NaturalCubic<f64>>::new(s, m, y)?.discount_factor(a, b)
}
pub fn r_curve_act360_linear(s: Date, m: &[Date], y: &[f64], a: Date, b: Date) -> QLabResult<f64> {
    YieldCurve::<Act360, Linear<f64>>::new(s, m, y)?.discount_factor(a, b)
}
pub fn r_curve_thirty_catmull(s: Date, m: &[Date], y: &[f64], a: Date, b: Date) -> QLabResult<f64> {
    YieldCurve::<Thirty360, CatmullRom<f64>>::new(s, m, y)?.discount_factor(a, b)
}

// ---------------------------------------------------------------- bonds
pub fn r_bond(
    issue: Date,
    first: Date,
    pen: Date,
    maturity: Date,
    rate: f64,
    face: f64,
    settle: Date,
    base: Date,
    node: Date,
    yld: f64,
) -> Option<QLabResult<f64>> {
    let b = Bond::new("id", issue, first, pen, maturity, Frequency::SA, rate, face)?;
    Some(match Curve::new(base, &[node], &[yld]) {
        Ok(c) => b.discounted_value(settle, &c),
        Err(e) => Err(e),
    })
}
pub fn r_bond_dated(issue: Date, first: Date, pen: Date, maturity: Date, rate: f64, face: f64, settle: Date) -> Option<QLabResult<f64>> {
    let b = Bond::new("id", issue, first, pen, maturity, Frequency::SA, rate, face)?;
    Some(match YieldCurve::<Act365, TotalInterp>::new(settle, &[settle], &[0.0]) {
        Ok(c) => b.discounted_value(settle, &c),
        Err(e) => Err(e),
    })
}
pub fn r_bond_at_issue(
    issue: Date,
    first: Date,
    pen: Date,
    maturity: Date,
    rate: f64,
    face: f64,
    node: Date,
    yld: f64,
) -> Option<QLabResult<f64>> {
    r_bond(issue, first, pen, maturity, rate, face, issue, issue, node, yld)
}
pub fn r_bond_exists(issue: Date, first: Date, pen: Date, maturity: Date, rate: f64, face: f64) -> bool {
    Bond::new("id", issue, first, pen, maturity, Frequency::SA, rate, face).is_some()
}

pub fn r_curve_df_error(s: Date, m: &[Date], y: &[f64], a: Date, b: Date) -> QLabResult<()> {
    r_curve_df(s, m, y, a, b).map(|_| ())
}
pub fn r_bond_error(
    issue: Date,
    first: Date,
    pen: Date,
    maturity: Date,
    rate: f64,
    face: f64,
    settle: Date,
    base: Date,
    node: Date,
    yld: f64,
) -> Option<QLabResult<()>> {
    r_bond(issue, first, pen, maturity, rate, face, settle, base, node, yld).map(|r| r.map(|_| ()))
}
pub fn r_bond_id(b: &Bond<f64>) -> &str {
    b.bond_id()
}

// ---------------------------------------------------------------- errors
pub fn r_err_from_interp(e: InterpolationError<f64>) -> QLabError {
    QLabError::from(e)
}
pub fn r_err_from_compute(e: ComputeError) -> QLabError {
    QLabError::from(e)
}

// ---------------------------------------------------------------- calendars, generically
pub fn r_cal_last_day(d: NaiveDate) -> NaiveDate {
    OpaqueN1.last_day_of_month(d)
}
pub fn r_cal_end_of_month(d: NaiveDate) -> NaiveDate {
    OpaqueN1.end_of_month(d)
}
pub fn r_cal_is_holiday(d: NaiveDate) -> bool {
    NCalendar::is_holiday(&OpaqueN1, d)
}
pub fn r_cal_is_weekend(d: NaiveDate) -> bool {
    OpaqueN1.is_weekend(d)
}
pub fn r_cal_dkmy(d: NaiveDate) -> (u32, chrono::Weekday, u32, i32, u32) {
    OpaqueN1.naive_date_to_dkmy(d)
}
pub fn r_cal_easter(y: i32) -> u32 {
    OpaqueN1.easter_monday(y)
}
pub fn r_cal_orthodox(y: i32) -> u32 {
    OpaqueN1.orthodox_easter_monday(y)
}
pub fn r_cal_bdb(a: NaiveDate, b: NaiveDate, f: Option<bool>, l: Option<bool>) -> i64 {
    OpaqueN1.business_days_between(a, b, f, l)
}
pub fn r_joint(d: NaiveDate) -> bool {
    NCalendar::is_business_day(&calendar::jointcalendar::JointCalendar::new(OpaqueN1, OpaqueN2), d)
}
pub fn r_joint_holiday(d: NaiveDate) -> bool {
    NCalendar::is_holiday(&calendar::jointcalendar::JointCalendar::new(OpaqueN1, OpaqueN2), d)
}
/// Names every method of a joint calendar, so that a method it replaces is seen.
pub fn r_joint_methods(j: &calendar::jointcalendar::JointCalendar<OpaqueN1, OpaqueN2>, d: NaiveDate, y: i32) {
    NCalendar::is_business_day(j, d);
    NCalendar::is_holiday(j, d);
    j.is_weekend(d);
    j.naive_date_to_dkmy(d);
    j.last_day_of_month(d);
    j.end_of_month(d);
    j.easter_monday(y);
    j.orthodox_easter_monday(y);
    j.business_days_between(d, d, None, None);
}
pub fn r_q_biz(d: Date) -> bool {
    QCalendar::is_business_day(&OpaqueN1, d)
}
pub fn r_q_hol(d: Date) -> bool {
    QCalendar::is_holiday(&OpaqueN1, d)
}
pub fn r_q_default_hol(d: Date) -> bool {
    QCalendar::is_holiday(&OpaqueQ, d)
}

// ---------------------------------------------------------------- reached for their effects only
pub fn r_joint_default(d: NaiveDate) -> bool {
    NCalendar::is_business_day(&calendar::jointcalendar::JointCalendar::<OpaqueN1D, OpaqueN1D>::default(), d)
}
#[derive(Debug, Default)]
pub struct OpaqueN1D;
impl NCalendar for OpaqueN1D {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        opaque_nbiz(1, date)
    }
}
pub fn r_show(j: &calendar::jointcalendar::JointCalendar<OpaqueN1, OpaqueN2>, e: &InterpolationError<f64>) -> String {
    format!("{j:?} {e:?} {e}")
}
pub fn r_interp_eq(a: &InterpolationError<f64>, b: &InterpolationError<f64>) -> bool {
    a == b
}
