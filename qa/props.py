"""Registry: property id -> check."""
from . import cals, effects, rules

CHECKS = {}


SUMMARY = 'abstract interpretation of compiler IR (MIR) to decision-diagram summaries'


def check(pid, title, rule, assume=(), technique=SUMMARY):
    def deco(f):
        f.title, f.rule, f.assume, f.technique = title, rule, assume, technique
        CHECKS[pid] = f
        return f
    return deco


CHRONO = 'chrono::NaiveDate behaves as documented (modelled, not analysed)'
RANGE = 'years 1901 to 2199, the range of the Easter tables'
REFERENCE = 'the reference table of each calendar (qa/calref.py) states its holidays correctly'


def cal_check(pid, title, names, least):
    @check(pid, title, 'The summary of is_business_day (abstract interpretation of its MIR and of everything it calls, for a symbolic market '
           'and date) equals the declarative reference table of the calendar on every market and date.', (CHRONO, RANGE, REFERENCE), SUMMARY + ', compared with a declarative holiday table')
    def f(c):
        cals.check_tables(c, names, least)


cal_check('C02', 'European holiday calendars follow their published rules', cals.EURO, 19)
cal_check('C03', 'American and African holiday calendars follow their published rules', cals.AMAF, 9)
cal_check('C04', 'Asian, Oceanian and Middle-Eastern calendars follow their published rules', cals.ASPA, 13)


@check('C01', 'Weekend days are never business days', 'In the summary of is_business_day of every calendar and market, no date on a day of that '
       "market's weekend evaluates to true.", (CHRONO, RANGE))
def c01(c):
    cals.check_weekends(c)


@check('C08', 'Calendars never panic', 'Every panic site (overflow, index, unwrap, explicit panic) reachable from is_business_day of every calendar '
       'has a reachability condition that is false on every market and date.', (CHRONO, RANGE))
def c08(c):
    cals.check_panics(c)


EQ = ('Both the library function and its reference function (roots/src/spec.rs) are abstracted from MIR to decision diagrams over linear terms, '
      'dates and uninterpreted functions; the condition under which they differ, or the library panics, is simplified and must be empty.  '
      'A non-empty condition is reported only with a point of it at which the two extracted terms evaluate differently.')
BOUND = 'loops over days are unrolled to the depth stated in the units; inputs needing more are not covered'
FINITE = 'floating-point inputs are finite and arithmetic on them is exact (real numbers)'


def rule(pid, title, fn, assume, extra=''):
    @check(pid, title, EQ + (' ' + extra if extra else ''), assume, SUMMARY + ', compared with a reference function')
    def f(c):
        getattr(rules, fn)(c)


rule('C05', 'Holidays are exactly the days that are not business days', 'complement', (CHRONO,))
rule('C06', 'A joint calendar is open when both members are open', 'joint', (CHRONO,))


@check('C07', 'Easter dates agree with the computus', 'The value abstracted from the Easter functions for every year of the range equals the Gregorian or '
       'Julian computus.', (RANGE,))
def c07(c):
    rules.easter(c)


rule('C09', 'Month ends are the last calendar and business day of the month', 'month_end', (CHRONO, RANGE, BOUND))
rule('C10', 'Business days between two dates count the interval exactly', 'between', (CHRONO, RANGE, BOUND))
rule('T01', 'Dates are constructed, read and ordered like calendar dates', 'construct', (CHRONO,))
rule('T02', 'Adding and subtracting days is exact or refused', 'day_steps', (CHRONO,))
rule('T03', 'Adding and subtracting months and years clamps to the month end', 'month_steps', (CHRONO,))
rule('T04', 'The weekend roll moves Saturdays and Sundays to Monday only', 'weekend_roll', (CHRONO,))
rule('T05', 'Date rolling lands on the business day its convention names', 'rolling', (CHRONO, BOUND))
rule('T06', 'A period of days, months or years moves a date by that unit', 'periods', (CHRONO, BOUND))
rule('T07', 'Actual/360 and Actual/365 are the day difference over the basis', 'actual', (CHRONO, FINITE))
rule('T08', 'Thirty/360 follows its day-capping rule for every pair of dates', 'thirty', (CHRONO, FINITE))
rule('M01', 'Fitting accepts exactly enough, ordered nodes', 'fit_rule', (FINITE,))
rule('M02', 'Interpolators refuse points outside the nodes and never panic', 'range_rule', (FINITE,))
rule('M03', 'Interpolators reproduce their nodes', 'node_rule', (FINITE,))
rule('M04', 'Linear interpolation is the chord of each segment', 'linear_rule', (FINITE,))
rule('M05', 'The natural cubic spline is the natural cubic spline', 'natural_rule', (FINITE,))
rule('M06', 'The Hermite spline has the given values and slopes', 'hermite_rule', (FINITE,))
rule('M07', 'The Catmull-Rom spline uses the chord slopes of its nodes', 'catmull_rule', (FINITE,))
rule('M08', 'A second fit leaves nothing of the first', 'refit_rule', (FINITE,))
rule('Y01', 'Discount factors follow from the spot yields of both dates', 'discount', (CHRONO, FINITE))
rule('Y02', 'A yield curve is fitted to its day-counted maturities or refused', 'curve_new', (CHRONO, FINITE))
MONTHS = 'month arithmetic stays within the supported range (T03 decides it); adding months moves a date by the least to greatest number of days the calendar allows'
ROLL = 'the weekend roll is the function T04 decides'
COUPONS = 'numbers of regular coupons up to the bound stated in the units'
rule('B01', 'Bond coupons fall on regular dates counted from the first coupon', 'coupons', (CHRONO, RANGE, FINITE, MONTHS, ROLL, COUPONS))
rule('B02', 'A bond is worth its discounted future flows', 'valuation', (CHRONO, RANGE, FINITE, MONTHS, ROLL, COUPONS))
rule('B03', 'Irregular first and last coupons are prorated, impossible bonds refused', 'stubs', (CHRONO, RANGE, FINITE, MONTHS, ROLL, COUPONS))


@check('X01', 'Results depend on the arguments only', 'Over the call graph of the monomorphic MIR no function reads the clock, the environment, files, the network, '
       'threads or random numbers, no static is mutable or holds a cell, no type of the library holds a cell, and a program asserting Send + Sync for '
       'every public type compiles.', ('the standard library and chrono keep no other state than the functions named in the rule give access to',
                                      'functions with type parameters are analysed at the types the roots give them'),
       'effect analysis over the call graph of compiler IR; type-level witness for thread safety')
def x01(c):
    effects.purity(c)


rule('X02', 'Errors keep their kind on the way to the caller', 'errors', (CHRONO, RANGE, FINITE, MONTHS, ROLL, COUPONS))


@check('X03', 'Public operations never panic on valid objects', 'Every panic site (overflow, index, unwrap, division, explicit panic) met while abstracting an operation has a '
       'reachability condition that is false for every argument.', (CHRONO, FINITE, BOUND, COUPONS), SUMMARY)
def x03(c):
    rules.safe(c)
