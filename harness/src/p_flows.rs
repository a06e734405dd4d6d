//! F01-F06: coupon legs, accruals, present values, yields and durations.
use crate::civil::*;
use crate::engine::*;
use crate::holidays_ref as href;
use crate::p_cal::{CalSpec, CONV};
use crate::p_dates::UNITS;
use crate::p_dc::{arb_coupons, close, counter, old_isma, ref_count, ref_fraction};
use crate::p_rates::{comp, growth, FREQS};
use crate::p_sched::{arb_bf, model, odate, SchedSpec};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use rust_quantlib::cashflows::cashflow::{self, CashFlow, CashFlowLeg};
use rust_quantlib::cashflows::coupon::{Coupon, CouponLeg};
use rust_quantlib::cashflows::fixedratecoupon::FixedRateCoupon;
use rust_quantlib::cashflows::fixedrateleg::FixedRateLeg;
use rust_quantlib::cashflows::simplecashflow::{AmortizingPayment, Redemption, SimpleCashFlow};
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::schedule::Schedule;
use rust_quantlib::maths::solvers1d::brent::Brent;
use rust_quantlib::maths::solvers1d::finitedifferencenewtonsafe::FiniteDifferenceNewtonSafe;
use rust_quantlib::maths::solvers1d::newtonsafe::NewtonSafe;
use rust_quantlib::maths::solvers1d::solver1d::Solver1D;
use rust_quantlib::rates::interestrate::InterestRate;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

/// day counters of legs: the 18 plain ones and Actual/Actual (ISMA) on reference periods
pub const NLDC: u8 = 19;
pub fn ldc(k: u8, term: i32) -> DayCounter {
    if k == 18 { DayCounter::actual_actual_old_isma() } else { counter(k, term) }
}

/// The year fraction from a to b, or None where the convention does not accept the interval
pub fn yfr(k: u8, a: i32, b: i32, rs: i32, re: i32, term: i32) -> Option<f64> {
    if k < 18 {
        return Some(ref_fraction(k, a, b, term));
    }
    if a == b {
        return Some(0.0);
    }
    let (lo, hi) = (a.min(b), a.max(b));
    let (rs, re) = if rs == 0 && re == 0 { (lo, hi) } else { (rs, re) };
    let short = ((12 * (re - rs)) as f64 / 365.0).round() == 0.0;
    if re <= rs || re <= lo || (hi > re && rs > lo && !short) {
        return None;
    }
    // notional periods past the ends of the calendar
    let len = (re - rs).max(366) + 32;
    if (hi > re && hi + len > y1(2199)) || (lo < rs && lo - len < y0(1901)) || lo.max(rs) + 367 > y1(2199) && short {
        return None;
    }
    let w = old_isma(lo, hi, rs, re);
    Some(if a < b { w } else { -w })
}
fn days(k: u8, a: i32, b: i32, term: i32) -> i32 {
    if k == 18 { b - a } else { ref_count(k, a, b, term) }
}

/// rate, compounding, frequency
pub type Rt = (f64, u8, usize);
/// ex-coupon period: length, unit, market, convention, end of month
pub type Ex = (i32, u8, u8, u8, bool);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LegSpec {
    pub sp: SchedSpec,
    pub notionals: Vec<f64>,
    pub rates: Vec<Rt>,
    pub dc: u8,
    pub fdc: Option<u8>,
    pub ldc: Option<u8>,
    pub paycal: Option<u8>,
    pub payconv: Option<u8>,
    pub lag: Option<i32>,
    pub ex: Option<Ex>,
    /// the schedule is truncated there, before (true) or after the date, if it lies inside
    #[serde(default)]
    pub cut: Option<(bool, i32)>,
}

/// A coupon as the leg describes it; 0 stands for "no date"
#[derive(Clone, Debug)]
pub struct Cpn {
    pub s: i32,
    pub e: i32,
    pub pay: i32,
    pub rs: i32,
    pub re: i32,
    pub ex: i32,
    pub nominal: f64,
    pub rate: Rt,
    pub dc: u8,
    pub term: i32,
}

impl Cpn {
    fn grow(&self, a: i32, b: i32) -> Option<f64> {
        let t = yfr(self.dc, a, b, self.rs, self.re, self.term)?;
        if t < 0.0 {
            return None;
        }
        growth(self.rate.1, FREQS[self.rate.2].1, self.rate.0, t)
    }
    pub fn amount(&self) -> Option<f64> {
        Some(self.nominal * (self.grow(self.s, self.e)? - 1.0))
    }
    pub fn ex_on(&self, d: i32) -> bool {
        self.ex != 0 && self.ex <= d
    }
    pub fn accrued(&self, d: i32) -> Option<f64> {
        if d <= self.s || d > self.pay {
            Some(0.0)
        } else if self.ex_on(d) {
            Some(-self.nominal * (self.grow(d, d.max(self.e))? - 1.0))
        } else {
            Some(self.nominal * (self.grow(self.s, d.min(self.e))? - 1.0))
        }
    }
    fn accrued_period(&self, d: i32) -> Option<f64> {
        if d <= self.s || d > self.pay {
            Some(0.0)
        } else if self.ex_on(d) {
            Some(-yfr(self.dc, d, d.max(self.e), self.rs, self.re, self.term)?)
        } else {
            yfr(self.dc, self.s, d.min(self.e), self.rs, self.re, self.term)
        }
    }
    fn accrued_days(&self, d: i32) -> i32 {
        if d <= self.s || d > self.pay { 0 } else { days(self.dc, self.s, d.min(self.e), self.term) }
    }
}

impl LegSpec {
    pub fn term(&self) -> i32 {
        self.sp.term
    }
    pub fn paycal(&self) -> CalSpec {
        self.paycal.map_or_else(|| self.sp.cal.clone(), CalSpec::plain)
    }
    /// The coupons the arguments describe
    pub fn model(&self) -> Option<Vec<Cpn>> {
        let (mut d, mut reg) = model(&self.sp)?;
        if let Some((from, t)) = self.cut {
            if d[0] < t && t < d[d.len() - 1] {
                let i = d.partition_point(|x| *x < t);
                let on = d[i] == t;
                if from {
                    (d, reg) = (d[i..].to_vec(), reg[i..].to_vec());
                } else {
                    d.truncate(i + on as usize);
                    reg.truncate(i + on as usize - 1);
                }
                if !on {
                    let k = if from { 0 } else { d.len() };
                    d.insert(k, t);
                    reg.insert(k.min(reg.len()), false);
                }
            }
        }
        let n = d.len() - 1;
        let cal = self.sp.cal.build().1;
        let pc = self.paycal().build().1;
        let payconv = CONV[self.payconv.unwrap_or(0) as usize];
        let tenor = if self.sp.rule == 2 { (0, 3) } else { (self.sp.n, self.sp.unit) };
        let eom_flag = self.sp.eom && tenor.1 >= 2 && tenor.0 >= 1;
        let roll = |s: i32, sg: i32| cal.advance(s, sg * tenor.0, tenor.1, self.sp.conv(), eom_flag);
        Some(
            (0..n)
                .map(|i| {
                    let (s, e) = (d[i], d[i + 1]);
                    let pay = pc.advance(e, self.lag.unwrap_or(0), 0, payconv, false);
                    let ex = self.ex.map_or(0, |(n, unit, market, conv, eom_)| {
                        CalSpec::plain(market).build().1.advance(pay, -n, unit, CONV[conv as usize], eom_)
                    });
                    let (mut rs, mut re) = (s, e);
                    let mut dc = self.dc;
                    if i == 0 {
                        dc = self.fdc.unwrap_or(dc);
                        if !reg[0] {
                            rs = roll(e, -1);
                        }
                    } else if i == n - 1 {
                        dc = self.ldc.unwrap_or(dc);
                        if !reg[i] {
                            re = roll(s, 1);
                        }
                    }
                    Cpn {
                        s, e, pay, rs, re, ex,
                        nominal: self.notionals[i.min(self.notionals.len() - 1)],
                        rate: self.rates[i.min(self.rates.len() - 1)],
                        dc,
                        term: self.term(),
                    }
                })
                .collect(),
        )
    }
    /// ... unless periods of a few days cross over in rolling
    pub fn ordered(&self) -> Option<Vec<Cpn>> {
        self.model().filter(|m| m.iter().all(|c| c.e >= c.s))
    }
    pub fn schedule(&self) -> Schedule {
        let s = self.sp.build();
        match self.cut {
            Some((from, t)) if s.start_date() < &date(t) && &date(t) < s.end_date() => if from { s.after(&date(t)) } else { s.until(&date(t)) },
            _ => s,
        }
    }
    pub fn rate(&self, r: &Rt) -> InterestRate {
        InterestRate::new(r.0, ldc(self.dc, self.term()), comp(r.1), FREQS[r.2].0)
    }
    pub fn options(&self, mut l: FixedRateLeg) -> FixedRateLeg {
        if let Some(k) = self.fdc {
            l = l.with_first_period_daycounter(ldc(k, self.term()));
        }
        if let Some(k) = self.ldc {
            l = l.with_last_period_daycounter(ldc(k, self.term()));
        }
        if let Some(k) = self.paycal {
            l = l.with_payment_calendar(href::calendar(k));
        }
        if let Some(k) = self.payconv {
            l = l.with_payment_adjustment(CONV[k as usize]);
        }
        if let Some(k) = self.lag {
            l = l.with_payment_lag(k);
        }
        if let Some((n, unit, market, conv, eom_)) = self.ex {
            l = l.with_ex_coupon_period(Period::new(n, UNITS[unit as usize]), href::calendar(market), CONV[conv as usize], eom_);
        }
        l
    }
    pub fn build(&self) -> Vec<FixedRateCoupon> {
        let rates = self.rates.iter().map(|r| self.rate(r)).collect();
        self.options(FixedRateLeg::new(self.schedule(), self.notionals.clone(), rates)).build()
    }
}

pub fn arb_ex() -> impl Strategy<Value = Option<Ex>> + Clone {
    option::weighted(0.45, (prop_oneof![5 => (1i32..15).prop_map(|n| (n, 0u8)), 1 => (15i32..70).prop_map(|n| (n, 0u8)), 4 => (1i32..4).prop_map(|n| (n, 1u8)), 1 => (4i32..13).prop_map(|n| (n, 1u8)), 4 => Just((1i32, 2u8)), 1 => (2i32..7).prop_map(|n| (n, 2u8))], 0u8..href::N, 0u8..7, any::<bool>()))
        .prop_map(|o| o.map(|((n, u), m, c, e)| (n, u, m, c, e)))
}

fn arb_rt() -> impl Strategy<Value = Rt> + Clone {
    (prop_oneof![4 => Just(0.0f64), 32 => 0.001f64..0.15, 8 => -0.03f64..0.0, 1 => 0.15f64..2.0, 1 => Just(1.0f64), 1 => -0.3f64..-0.03], prop_oneof![3 => Just(0u8), 2 => 1u8..5], 0usize..11)
}

/// one to four of them, sometimes many
fn arb_list<T: std::fmt::Debug + 'static>(x: impl Strategy<Value = T> + Clone + 'static) -> impl Strategy<Value = Vec<T>> + Clone {
    (1usize..5, prop::bool::weighted(0.06), prop_oneof![4 => 5usize..40, 1 => 40usize..260]).prop_flat_map(move |(n, many, m)| vec(x.clone(), if many { m } else { n }))
}

pub fn arb_leg_on(sp: impl Strategy<Value = SchedSpec> + Clone) -> impl Strategy<Value = LegSpec> + Clone {
    (
        sp,
        (arb_list(prop_oneof![12 => 1.0f64..10_000.0, 1 => 1.0e4..1.0e9, 1 => prop_oneof![Just(1.0f64), Just(100.0), Just(1e6)], 1 => 1e-4f64..1.0]), arb_list(arb_rt())),
        (prop_oneof![4 => 0..NLDC, 1 => Just(18u8)], option::weighted(0.25, 0..NLDC), option::weighted(0.25, 0..NLDC)),
        (option::weighted(0.4, 0..href::N), option::weighted(0.6, 0u8..7), option::weighted(0.3, prop_oneof![9 => -4i32..12, 1 => -30i32..70])),
        (arb_ex(), option::weighted(0.06, (any::<bool>(), 0.0f64..1.0))),
    )
        .prop_map(|(sp, (notionals, rates), (dc, fdc, ldc), (paycal, payconv, lag), (ex, cut))| LegSpec {
            // (a zero-coupon schedule has no tenor to make up reference periods from)
            cut: cut.filter(|_| sp.rule != 2).map(|(from, f)| (from, sp.eff + (f64::from(sp.term - sp.eff) * f) as i32)),
            sp, notionals, rates, dc, fdc, ldc, paycal, payconv, lag, ex,
        })
}

/// any schedule of the Backward, Forward and Zero rules with up to 30 periods, or a coupon bond's
pub fn arb_leg() -> impl Strategy<Value = LegSpec> + Clone {
    arb_leg_on(prop_oneof![arb_bf(), arb_coupons()])
}

fn d0(s: i32) -> Date {
    odate(s)
}

fn same(c: &FixedRateCoupon, m: &Cpn, i: usize) -> Res {
    let what = || format!("coupon {i} from {} to {}", show(m.s), show(m.e));
    ensure_eq!(c.accrual_start_date, d0(m.s), "{}: accrual start", what());
    ensure_eq!(c.accrual_end_date, d0(m.e), "{}: accrual end", what());
    ensure_eq!(c.payment_date, d0(m.pay), "{}: payment date", what());
    ensure_eq!(c.ref_period_start, d0(m.rs), "{}: reference period start", what());
    ensure_eq!(c.ref_period_end, d0(m.re), "{}: reference period end", what());
    ensure_eq!(c.ex_coupon_date, d0(m.ex), "{}: ex-coupon date", what());
    ensure!(c.nominal == m.nominal, "{}: nominal {} instead of {}", what(), c.nominal, m.nominal);
    ensure!(c.rate.rate == m.rate.0, "{}: rate {} instead of {}", what(), c.rate.rate, m.rate.0);
    ensure_eq!(c.rate.compounding, comp(m.rate.1), "{}: compounding", what());
    let f = if matches!(m.rate.1, 0 | 2) { rust_quantlib::datetime::frequency::Frequency::NoFrequency } else { FREQS[m.rate.2].0 };
    ensure_eq!(c.rate.frequency(), f, "{}: frequency", what());
    ensure_eq!(c.rate.daycounter.name(), ldc(m.dc, m.term).name(), "{}: day counter", what());
    // seen through the traits
    ensure!(
        c.date() == c.payment_date && CashFlow::accrual_start_date(c) == c.accrual_start_date && CashFlow::accrual_end_date(c) == c.accrual_end_date
            && c.reference_period_start() == c.ref_period_start && c.reference_period_end() == c.ref_period_end
            && CashFlow::ex_coupon_date(c) == c.ex_coupon_date && Coupon::nominal(c) == c.nominal && Coupon::rate(c) == c.rate.rate,
        "{}: the coupon answers differently through its trait",
        what()
    );
    Ok(())
}

fn lab_leg(cx: &Cx, l: &LegSpec, m: &[Cpn]) {
    cx.label_if(m.iter().any(|c| c.rs != c.s), "first reference period differs");
    cx.label_if(m.iter().any(|c| c.re != c.e), "last reference period differs");
    cx.label_if(l.ex.is_some(), "ex-coupon");
    cx.label_if(l.cut.is_some(), "truncated schedule");
    cx.label_if(l.lag.map_or(false, |x| x != 0), "payment lag");
    cx.label_if(m.len() == 1, "single coupon");
}

pub fn f01(s: &mut Session) {
    s.rule(
        "A case is a schedule specification (sometimes truncated) with up to four (sometimes up to forty) notionals and rates, day counters for the \
         first and last period, a payment calendar, convention and lag and an ex-coupon period; \
         non-trivial with two or more coupons. Every field of every coupon is compared with a model \
         computed from the schedule model and the calendar model.",
    );
    s.check("leg", 6_000, 120_000, arb_leg, |l: &LegSpec, cx| {
        let Some(m) = l.model() else { return Ok(()) };
        let leg = call("building the leg", || l.build())?;
        ensure_eq!(leg.len(), m.len(), "number of coupons");
        cx.nontrivial_if(m.len() > 1);
        lab_leg(cx, l, &m);
        for (i, (c, m)) in leg.iter().zip(&m).enumerate() {
            same(c, m, i)?;
        }
        Ok(())
    });
    s.check(
        "setters",
        4_000,
        80_000,
        || (arb_leg_on(arb_coupons()), vec(1.0f64..100.0, 1..4), vec(arb_rt(), 1..4), 0u8..6),
        |(l, junk_n, junk_r, how): &(LegSpec, Vec<f64>, Vec<Rt>, u8), cx| {
            let mut l = l.clone();
            // what is set later replaces what was given before
            let jr: Vec<InterestRate> = junk_r.iter().map(|r| l.rate(r)).collect();
            let dc = ldc(l.dc, l.term());
            if matches!(how, 0 | 1 | 2) {
                l.notionals.truncate(1);
            }
            if matches!(how, 0 | 2) {
                l.rates.truncate(1);
            }
            if matches!(how, 1 | 4) {
                // one convention for all rates
                let (_, c, f) = l.rates[0];
                l.rates.iter_mut().for_each(|r| (r.1, r.2) = (c, f));
            }
            let Some(m) = l.model() else { return Ok(()) };
            let r0 = l.rates[0];
            let leg = call("building the leg", || {
                let b = FixedRateLeg::new(l.schedule(), junk_n.clone(), jr.clone());
                let all: Vec<f64> = l.rates.iter().map(|r| r.0).collect();
                let b = match how {
                    0 => b.with_notional(l.notionals[0]).with_coupon_rate(r0.0, dc.clone(), comp(r0.1), FREQS[r0.2].0),
                    1 => b.with_notional(l.notionals[0]).with_coupon_rates(all, dc.clone(), comp(r0.1), FREQS[r0.2].0),
                    2 => b.with_notional(l.notionals[0]).with_interest_rate(l.rate(&r0)),
                    3 => b.with_notionals(l.notionals.clone()).with_interest_rates(l.rates.iter().map(|r| l.rate(r)).collect()),
                    4 => b.with_coupon_rates(all, dc.clone(), comp(r0.1), FREQS[r0.2].0).with_notionals(l.notionals.clone()),
                    _ => b.with_interest_rates(l.rates.iter().map(|r| l.rate(r)).collect()).with_notionals(l.notionals.clone()),
                };
                l.options(b).build()
            })?;
            cx.nontrivial_if(m.len() > 1);
            ensure_eq!(leg.len(), m.len(), "number of coupons");
            for (i, (c, m)) in leg.iter().zip(&m).enumerate() {
                same(c, m, i)?;
            }
            for (n, r) in [(vec![], jr.clone()), (junk_n.clone(), vec![])] {
                let e = quiet(|| FixedRateLeg::new(l.schedule(), n.clone(), r.clone()).build());
                ensure!(e.is_err(), "a leg without {} is accepted", if n.is_empty() { "notionals" } else { "rates" });
            }
            Ok(())
        },
    );
}

/// positions in a leg: (coupon, which of its dates, offset) or a fraction of its life
pub type When = (f64, u8, i32);
pub fn arb_when() -> impl Strategy<Value = When> + Clone {
    (0.0f64..1.0, 0u8..8, -2i32..3)
}
pub fn when(m: &[Cpn], w: &When) -> i32 {
    let c = &m[((w.0 * m.len() as f64) as usize).min(m.len() - 1)];
    let (lo, hi) = (m[0].s - 40, m[m.len() - 1].pay + 10);
    let x = match w.1 {
        0 => c.s,
        1 => c.e,
        2 => c.pay,
        3 if c.ex != 0 => c.ex,
        4 => c.s + (c.e - c.s) / 2,
        _ => return lo + (w.0 * f64::from(hi - lo)) as i32,
    };
    x + w.2
}

pub fn f02(s: &mut Session) {
    s.rule(
        "A case is a leg as for F01 and up to six dates at, beside or between accrual, payment and \
         ex-coupon dates; non-trivial when a date falls inside a coupon's life. Amounts and accruals are \
         compared with nominal times (growth factor - 1) computed from the reference day counters.",
    );
    s.check("coupon", 5_000, 120_000, || (arb_leg(), vec(arb_when(), 1..7)), |(l, ws): &(LegSpec, Vec<When>), cx| {
        let Some(m) = l.ordered() else { return Ok(()) };
        let leg = call("building the leg", || l.build())?;
        ensure_eq!(leg.len(), m.len(), "number of coupons");
        lab_leg(cx, l, &m);
        for (i, (c, m)) in leg.iter().zip(&m).enumerate() {
            let what = || format!("coupon {i} from {} to {} paid {}", show(m.s), show(m.e), show(m.pay));
            if let Some(w) = m.amount() {
                let a = call(&what(), || c.amount())?;
                ensure!((a - w).abs() <= 1e-10 * m.nominal.abs().max(w.abs()), "{}: amount {a}, expected {w}", what());
                let ap = call(&what(), || c.accrual_period())?;
                ensure!(close(ap, yfr(m.dc, m.s, m.e, m.rs, m.re, m.term).unwrap(), 1e-12), "{}: accrual period {ap}", what());
                // the plain constructor is simple interest
                if m.rate.1 == 0 {
                    let p = FixedRateCoupon::new(
                        d0(m.pay), m.nominal, m.rate.0, ldc(m.dc, m.term), d0(m.s), d0(m.e), Some(d0(m.rs)), Some(d0(m.re)), None,
                    );
                    ensure!((call(&what(), || p.amount())? - w).abs() <= 1e-10 * m.nominal, "{}: plain coupon pays {}", what(), p.amount());
                    ensure_eq!(p.trading_ex_coupon(d0(m.pay)), false, "{}: coupon without ex-coupon date", what());
                }
            }
            ensure_eq!(call(&what(), || c.accrual_days())?, days(m.dc, m.s, m.e, m.term), "{}: accrual days", what());
        }
        for w in ws {
            let d = when(&m, w);
            for (i, (c, m)) in leg.iter().zip(&m).enumerate() {
                let inside = d > m.s && d <= m.pay;
                if !inside && i % 4 != 0 {
                    continue;
                }
                cx.inner(1);
                cx.nontrivial_if(inside);
                cx.label_if(inside && d > m.e, "after the accrual end");
                let what = || format!("coupon {i} from {} to {} paid {} ex {} at {}", show(m.s), show(m.e), show(m.pay), show(m.ex), show(d));
                ensure_eq!(call(&what(), || c.accrued_days(date(d)))?, m.accrued_days(d), "{}: accrued days", what());
                if let Some(w) = m.accrued_period(d) {
                    let g = call(&what(), || c.accrued_period(date(d)))?;
                    ensure!(close(g, w, 1e-12), "{}: accrued period {g}, expected {w}", what());
                }
                if let Some(w) = m.accrued(d) {
                    cx.label_if(inside && m.ex_on(d), "ex-coupon accrual");
                    let g = call(&what(), || c.accrued_amount(date(d)))?;
                    ensure!((g - w).abs() <= 1e-10 * m.nominal.abs().max(w.abs()), "{}: accrued amount {g}, expected {w}", what());
                    if inside && !m.ex_on(d) && d >= m.e {
                        let a = c.amount();
                        ensure!((g - a).abs() <= 1e-10 * m.nominal.abs().max(a.abs()), "{}: accrued {g} after the accrual end, coupon {a}", what());
                    }
                }
            }
        }
        Ok(())
    });
    s.check("leg", 4_000, 100_000, || (arb_leg(), vec(arb_when(), 1..7), any::<bool>()), |(l, ws, inc): &(LegSpec, Vec<When>, bool), cx| {
        let Some(m) = l.ordered() else { return Ok(()) };
        let leg = call("building the leg", || l.build())?;
        for w in ws {
            let d = when(&m, w);
            let next = m.iter().position(|c| if *inc { c.pay >= d } else { c.pay > d });
            ensure_eq!(cashflow::next_cashflow(&leg, *inc, date(d)), next, "next cash flow at {}", show(d));
            let what = || format!("leg at {}", show(d));
            let Some(k) = next else {
                ensure!(
                    cashflow::accrued_amount(&leg, *inc, date(d)) == 0.0 && cashflow::accrued_days(&leg, *inc, date(d)) == 0
                        && cashflow::accrued_period(&leg, *inc, date(d)) == 0.0,
                    "{}: something accrues after the last payment",
                    what()
                );
                continue;
            };
            cx.nontrivial_if(d > m[k].s);
            ensure_eq!(call(&what(), || cashflow::accrued_days(&leg, *inc, date(d)))?, m[k].accrued_days(d), "{}: accrued days", what());
            if let Some(w) = m[k].accrued_period(d) {
                let g = call(&what(), || cashflow::accrued_period(&leg, *inc, date(d)))?;
                ensure!(close(g, w, 1e-12), "{}: accrued period {g}, expected {w}", what());
            }
            let together: Vec<Option<f64>> = m[k..].iter().filter(|c| c.pay == m[k].pay).map(|c| c.accrued(d)).collect();
            cx.label_if(together.len() > 1, "two coupons paid together");
            if together.iter().all(|x| x.is_some()) {
                let w: f64 = together.iter().flatten().sum();
                let g = call(&what(), || cashflow::accrued_amount(&leg, *inc, date(d)))?;
                ensure!((g - w).abs() <= 1e-9 * m[k].nominal.abs().max(w.abs()), "{}: accrued amount {g}, expected {w}", what());
            }
        }
        ensure_eq!(cashflow::maturity_date(&leg), d0(m.iter().map(|c| c.e).max().unwrap()), "maturity");
        ensure!(quiet(|| cashflow::maturity_date(&Vec::<FixedRateCoupon>::new())).is_err(), "maturity of no cash flows");
        Ok(())
    });
    s.check(
        "two_legs",
        4_000,
        100_000,
        || (arb_leg(), prop_oneof![Just(None), (-20i32..30).prop_map(Some)], vec(any::<u32>(), 8..40), vec(arb_when(), 1..7), any::<bool>()),
        |(l, lag, mix, ws, inc): &(LegSpec, Option<i32>, Vec<u32>, Vec<When>, bool), cx| {
            // the coupons of a leg and of a copy (paid with another lag, or not), in any order
            let mut l2 = l.clone();
            l2.lag = lag.or(l.lag);
            l2.notionals.iter_mut().for_each(|n| *n *= 1.7);
            let (Some(m1), Some(m2)) = (l.ordered(), l2.ordered()) else { return Ok(()) };
            let (g1, g2) = (call("building the leg", || l.build())?, call("building the leg", || l2.build())?);
            ensure!(g1.len() == m1.len() && g2.len() == m2.len(), "number of coupons");
            let mut all: Vec<(Cpn, FixedRateCoupon)> = m1.iter().chain(&m2).cloned().zip(g1.into_iter().chain(g2)).collect();
            if mix[0] % 2 == 0 {
                all.sort_by_key(|x| x.0.pay);
            }
            let n = all.len();
            for w in mix.chunks(2) {
                // most legs stay nearly in order
                let i = w[0] as usize / 7 % n;
                let j = if w[0] % 3 == 0 { w[w.len() - 1] as usize % n } else { (i + 1 + w[w.len() - 1] as usize % 3).min(n - 1) };
                all.swap(i, j);
            }
            let (m, leg): (Vec<Cpn>, Vec<FixedRateCoupon>) = all.into_iter().unzip();
            for w in ws {
                let d = when(&m1, w);
                let live = |c: &&Cpn| if *inc { c.pay >= d } else { c.pay > d };
                let Some(first) = m.iter().find(live) else { continue };
                let due = m.iter().filter(live).map(|c| c.pay).min().unwrap();
                // the first coupon listed stands for the next one
                if first.pay != due {
                    continue;
                }
                let what = || format!("{} coupons in any order at {}", m.len(), show(d));
                let (at, last) = (m.iter().position(|c| c.pay == due).unwrap(), m.iter().rposition(|c| c.pay == due).unwrap());
                let together: Vec<&Cpn> = m.iter().filter(|c| c.pay == due).collect();
                cx.inner(1);
                cx.nontrivial_if(together.len() > 1 && d > together[0].s);
                cx.label_if(last - at + 1 > together.len(), "coupons paid together are apart in the list");
                let parts: Vec<Option<f64>> = together.iter().map(|c| c.accrued(d)).collect();
                if parts.iter().all(|x| x.is_some()) {
                    let w: f64 = parts.iter().flatten().sum();
                    let size: f64 = together.iter().map(|c| c.nominal).sum::<f64>() + w.abs();
                    let g = call(&what(), || cashflow::accrued_amount(&leg, *inc, date(d)))?;
                    ensure!((g - w).abs() <= 1e-9 * size, "{}: accrued amount {g}, expected {w}", what());
                }
                let g = call(&what(), || cashflow::accrued_days(&leg, *inc, date(d)))?;
                ensure!(together.iter().any(|c| c.accrued_days(d) == g), "{}: {g} accrued days", what());
                if together.iter().all(|c| c.accrued_period(d).is_some()) {
                    let g = call(&what(), || cashflow::accrued_period(&leg, *inc, date(d)))?;
                    ensure!(together.iter().any(|c| close(c.accrued_period(d).unwrap(), g, 1e-12)), "{}: accrued period {g}", what());
                }
            }
            Ok(())
        },
    );
    s.check(
        "maturity",
        4_000,
        80_000,
        || (arb_book(), vec(any::<u32>(), 8), vec((-500.0f64..500.0, arb_date(y0(1902), y1(2190)), 0u8..3), 1..8)),
        |(b, mix, plain): &(Book, Vec<u32>, Vec<(f64, i32, u8)>), cx| {
            let single = |a: f64, on: i32, k: u8| -> Rc<dyn CashFlow> {
                match k {
                    0 => Rc::new(SimpleCashFlow::new(a, date(on))),
                    1 => Rc::new(Redemption::new(a, date(on))),
                    _ => Rc::new(AmortizingPayment::new(a, date(on))),
                }
            };
            let flows: CashFlowLeg = plain.iter().map(|f| single(f.0, f.1, f.2)).collect();
            let last = plain.iter().map(|f| f.1).max().unwrap();
            cx.nontrivial_if(plain[plain.len() - 1].1 != last);
            ensure_eq!(cashflow::maturity_date(&flows), date(last), "maturity of single payments");
            ensure!(quiet(|| cashflow::maturity_date(&CashFlowLeg::new())).is_err(), "maturity of no cash flows");
            let Some((_, m)) = b.make() else { return Ok(()) };
            let mut all = call("building the leg", || b.build(&m))?;
            // what accrues decides, in whatever order it is listed
            let n = all.len();
            for w in mix.chunks(2) {
                all.swap(w[0] as usize % n, w[1] as usize % n);
            }
            cx.nontrivial();
            ensure_eq!(cashflow::maturity_date(&all), d0(m.iter().map(|c| c.e).max().unwrap()), "maturity of coupons and single payments");
            Ok(())
        },
    );
}

pub fn f03(s: &mut Session) {
    s.rule(
        "A case is a leg as for F01 and up to six dates; the same coupons are held by value, behind shared \
         pointers to the coupon, to a coupon interface and to a cash flow interface, and must answer \
         alike. Non-trivial when a date falls on or after an ex-coupon date and before payment, or on a \
         payment date.",
    );
    s.check("flags", 5_000, 120_000, || (arb_leg(), vec(arb_when(), 1..7)), |(l, ws): &(LegSpec, Vec<When>), cx| {
        let Some(m) = l.model() else { return Ok(()) };
        let leg = call("building the leg", || l.build())?;
        let rc: Vec<Rc<FixedRateCoupon>> = leg.iter().map(|c| Rc::new(c.clone())).collect();
        let cf: CashFlowLeg = leg.iter().map(|c| Rc::new(c.clone()) as Rc<dyn CashFlow>).collect();
        let cp: CouponLeg = leg.iter().map(|c| Rc::new(c.clone()) as Rc<dyn Coupon>).collect();
        lab_leg(cx, l, &m);
        for w in ws {
            let d = when(&m, w);
            let dd = date(d);
            for (i, x) in m.iter().enumerate() {
                cx.nontrivial_if(d == x.pay || (x.ex_on(d) && d < x.pay));
                let what = || format!("coupon {i} paid {} ex {} at {}", show(x.pay), show(x.ex), show(d));
                let flags = |c: &dyn CashFlow| (c.trading_ex_coupon(dd), c.has_occurred(&dd, false), c.has_occurred(&dd, true));
                let want = (x.ex_on(d), x.pay <= d, x.pay < d);
                ensure_eq!(flags(&leg[i]), want, "{}: (ex-coupon, occurred, occurred with the date's own flows)", what());
                ensure_eq!(flags(&rc[i]), want, "{} shared: (ex-coupon, occurred, occurred with the date's own flows)", what());
                ensure_eq!(flags(&cf[i]), want, "{} as a shared cash flow: (ex-coupon, occurred, occurred with the date's own flows)", what());
                ensure_eq!(flags(&cp[i]), want, "{} as a shared coupon: (ex-coupon, occurred, occurred with the date's own flows)", what());
                let dates = |c: &dyn CashFlow| {
                    (c.accrual_start_date(), c.accrual_end_date(), c.date(), c.ex_coupon_date(), c.reference_period_start(), c.reference_period_end())
                };
                let want = (d0(x.s), d0(x.e), d0(x.pay), d0(x.ex), d0(x.rs), d0(x.re));
                ensure_eq!(dates(&leg[i]), want, "{}: dates", what());
                ensure_eq!(dates(&rc[i]), want, "{} shared: dates", what());
                ensure_eq!(dates(&cf[i]), want, "{} as a shared cash flow: dates", what());
                ensure_eq!(dates(&cp[i]), want, "{} as a shared coupon: dates", what());
            }
            let i = ((w.0 * m.len() as f64) as usize).min(m.len() - 1);
            let own = quiet(|| (leg[i].amount(), leg[i].accrued_amount(dd)));
            for got in [quiet(|| (rc[i].amount(), rc[i].accrued_amount(dd))), quiet(|| (cf[i].amount(), cf[i].accrued_amount(dd))), quiet(|| (cp[i].amount(), cp[i].accrued_amount(dd)))] {
                ensure_eq!(got.clone().ok(), own.clone().ok(), "coupon {i} shared: amount and accrued amount at {}", show(d));
            }
            let own = quiet(|| (leg[i].accrued_days(dd), leg[i].accrued_period(dd), leg[i].accrual_days(), leg[i].accrual_period()));
            for got in [
                quiet(|| (rc[i].accrued_days(dd), rc[i].accrued_period(dd), rc[i].accrual_days(), rc[i].accrual_period())),
                quiet(|| (cp[i].accrued_days(dd), cp[i].accrued_period(dd), cp[i].accrual_days(), cp[i].accrual_period())),
            ] {
                ensure_eq!(got.clone().ok(), own.clone().ok(), "coupon {i} shared: accrual at {}", show(d));
            }
            ensure!(
                Coupon::nominal(&cp[i]) == leg[i].nominal && Coupon::rate(&cp[i]) == leg[i].rate.rate && cp[i].day_counter().name() == leg[i].rate.daycounter.name(),
                "coupon {i} shared: nominal, rate or day counter"
            );
            for inc in [false, true] {
                let own = quiet(|| cashflow::accrued_amount(&leg, inc, dd)).ok();
                ensure_eq!(quiet(|| cashflow::accrued_amount(&cf, inc, dd)).ok(), own, "accrued amount of the shared leg at {}", show(d));
                ensure_eq!(cashflow::next_cashflow(&cf, inc, dd), cashflow::next_cashflow(&leg, inc, dd), "next cash flow of the shared leg at {}", show(d));
            }
        }
        Ok(())
    });
    s.check(
        "simple_flows",
        4_000,
        80_000,
        || (-1000.0f64..1000.0, arb_date(y0(1902), y1(2190)), -3i32..4, 0u8..3),
        |&(amount, on, off, kind): &(f64, i32, i32, u8), cx| {
            let f: Rc<dyn CashFlow> = match kind {
                0 => Rc::new(SimpleCashFlow::new(amount, date(on))),
                1 => Rc::new(Redemption::new(amount, date(on))),
                _ => Rc::new(AmortizingPayment::new(amount, date(on))),
            };
            let d = date(on + off);
            cx.nontrivial_if(off == 0);
            ensure!(f.amount() == amount && f.date() == date(on) && f.accrued_amount(d) == 0.0, "a cash flow of {amount} on {}", show(on));
            ensure!(!f.trading_ex_coupon(d), "a cash flow without ex-coupon date trades ex-coupon");
            ensure_eq!((f.has_occurred(&d, false), f.has_occurred(&d, true)), (off >= 0, off > 0), "flow on {} seen from {}", show(on), show(on + off));
            ensure!(!f.has_occurred(&Date::default(), true) && !f.has_occurred(&Date::default(), false), "flow on {} before the null date", show(on));
            ensure_eq!(
                (f.accrual_start_date(), f.accrual_end_date(), f.reference_period_start(), f.reference_period_end()),
                (Date::default(), Date::default(), Date::default(), Date::default()),
                "a simple flow has no accrual period"
            );
            Ok(())
        },
    );
}

// ---------------------------------------------------------------------------------------- F04

/// a leg with a redemption and other single payments: (amount, position, kind)
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Book {
    pub leg: LegSpec,
    pub redemption: f64,
    pub extra: Vec<(f64, When, u8)>,
}

#[derive(Clone, Debug)]
pub enum Flow {
    C(Cpn),
    P(i32, f64),
}
impl Flow {
    pub fn pay(&self) -> i32 {
        match self {
            Flow::C(c) => c.pay,
            Flow::P(d, _) => *d,
        }
    }
    pub fn amount(&self) -> Option<f64> {
        match self {
            Flow::C(c) => c.amount(),
            Flow::P(_, a) => Some(*a),
        }
    }
    pub fn ex_on(&self, d: i32) -> bool {
        matches!(self, Flow::C(c) if c.ex_on(d))
    }
}

impl Book {
    pub fn make(&self) -> Option<(Vec<Flow>, Vec<Cpn>)> {
        let m = self.leg.ordered()?;
        let mut v: Vec<Flow> = m.iter().cloned().map(Flow::C).collect();
        v.push(Flow::P(m[m.len() - 1].pay, self.redemption));
        for (a, w, _) in &self.extra {
            v.push(Flow::P(when(&m, w), *a));
        }
        v.sort_by_key(|f| f.pay());
        Some((v, m))
    }
    pub fn build(&self, m: &[Cpn]) -> CashFlowLeg {
        let mut v: CashFlowLeg = self.leg.build().into_iter().map(|c| Rc::new(c) as Rc<dyn CashFlow>).collect();
        v.push(Rc::new(Redemption::new(self.redemption, date(m[m.len() - 1].pay))));
        for (a, w, k) in &self.extra {
            let d = date(when(m, w));
            v.push(match k {
                0 => Rc::new(SimpleCashFlow::new(*a, d)),
                1 => Rc::new(Redemption::new(*a, d)),
                _ => Rc::new(AmortizingPayment::new(*a, d)),
            });
        }
        v.sort_by_key(|f| f.date());
        v
    }
}

/// how to discount: rate, day counter
pub type Disc = (Rt, u8);

pub struct Pv {
    pub npv: f64,
    /// sum of absolute discounted amounts
    pub size: f64,
    /// the same with each coupon's notional added: what the price's rounding scales with
    pub gross: f64,
    /// roughly the price's slope in the yield
    pub slope: f64,
    pub mint: f64,
    /// (amount, step)
    pub steps: Vec<(f64, f64)>,
}

/// Present value at npv_date of what is still to be paid on `settle`, one period at a time
pub fn pv(flows: &[Flow], disc: &Disc, term: i32, inc: bool, settle: i32, npv_date: i32) -> Option<Pv> {
    let ((r, k, f), dc) = *disc;
    let mut out = Pv { npv: 0.0, size: 0.0, gross: 0.0, slope: 0.0, mint: f64::INFINITY, steps: vec![] };
    let (mut d, mut last, mut total) = (1.0, npv_date, 0.0);
    for fl in flows {
        let pay = fl.pay();
        if if inc { pay < settle } else { pay <= settle } {
            continue;
        }
        let amount = fl.amount()?;
        let amount = if fl.ex_on(settle) { 0.0 } else { amount };
        let t = match fl {
            Flow::C(c) if last != c.s => yfr(dc, c.s, pay, c.rs, c.re, term)? - yfr(dc, c.s, last, c.rs, c.re, term)?,
            Flow::C(c) => yfr(dc, last, pay, c.rs, c.re, term)?,
            Flow::P(..) => {
                let rs = if last == npv_date { add_months(pay, -12) } else { last };
                if dc == 18 && rs == pay && last != pay {
                    return None;
                }
                yfr(dc, last, pay, rs, pay, term)?
            }
        };
        if t < 0.0 {
            return None;
        }
        let g = growth(k, FREQS[f].1, r, t)?;
        if g <= 1e-2 || g > 1e6 {
            return None;
        }
        d /= g;
        out.mint = out.mint.min(t);
        out.npv += amount * d;
        // a coupon's amount is known to within rounding of its notional
        let nominal = if let Flow::C(c) = fl { c.nominal.abs() } else { 0.0 };
        total += t;
        out.size += (amount.abs() + 1e-3 * nominal) * d;
        out.gross += (amount.abs() + nominal) * d;
        out.slope += amount * total * d;
        out.steps.push((amount, t));
        last = pay;
    }
    Some(out)
}

pub fn disc_rate(d: &Disc, term: i32) -> InterestRate {
    InterestRate::new(d.0 .0, ldc(d.1, term), comp(d.0 .1), FREQS[d.0 .2].0)
}

pub fn arb_disc() -> impl Strategy<Value = Disc> + Clone {
    (
        (prop_oneof![4 => Just(0.0f64), 40 => 0.0005f64..0.25, 8 => -0.02f64..0.0, 1 => 0.25f64..1.5, 1 => -0.2f64..-0.02, 1 => Just(1.0f64)], prop_oneof![1 => Just(0u8), 4 => Just(1u8), 3 => Just(2u8), 2 => Just(3u8), 1 => Just(4u8)], 0usize..11),
        prop_oneof![3 => 0..NLDC, 1 => Just(18u8), 1 => Just(0u8), 1 => Just(14u8)],
    )
}

fn arb_book() -> impl Strategy<Value = Book> + Clone {
    (arb_leg(), prop_oneof![6 => 0.0f64..20_000.0, 1 => (0i32..200).prop_map(|k| f64::from(100 * k))], vec((prop_oneof![6 => -500.0f64..500.0, 1 => (-5i32..6).prop_map(|k| f64::from(100 * k))], arb_when(), 0u8..3), 0..3)).prop_map(|(leg, redemption, extra)| Book { leg, redemption, extra })
}

pub fn f04(s: &mut Session) {
    s.rule(
        "A case is a leg with a redemption and up to two further payments, a discounting rate (convention, \
         frequency, day counter), a settlement date, a valuation date and the flag for flows on the \
         settlement date; non-trivial with two or more flows left. The value is compared with \
         period-by-period discounting by the reference day counters and growth factors and, for \
         day counters that add up and exponential conventions, with the closed sum of discounted flows.",
    );
    s.assume("Legs are in date order; cases in which a period is negative by the discounting day counter, or outside the reference-period convention, are skipped.");
    s.check(
        "npv",
        6_000,
        150_000,
        || (arb_book(), arb_disc(), vec((arb_when(), option::weighted(0.3, -30i32..30), any::<bool>()), 1..4)),
        |(b, disc, asks): &(Book, Disc, Vec<(When, Option<i32>, bool)>), cx| {
            let Some((flows, m)) = b.make() else { return Ok(()) };
            let term = b.leg.term();
            let leg = call("building the leg", || b.build(&m))?;
            let y = disc_rate(disc, term);
            for (w, at, inc) in asks {
                let settle = when(&m, w);
                let npv_date = at.map_or(settle, |o| settle + o);
                let Some(p) = pv(&flows, disc, term, *inc, settle, npv_date) else { continue };
                let nd = if at.is_some() { date(npv_date) } else { Date::default() };
                let what = || format!("npv settling {} valued {} ({} flows left)", show(settle), show(npv_date), p.steps.len());
                let got = match quiet(|| cashflow::npv(&leg, &y, *inc, date(settle), nd)) {
                    Ok(g) => g,
                    Err(e) => {
                        // rounding may push a period next to nothing below zero
                        ensure!(p.mint > 0.0 && p.mint < 1e-9, "{} panicked: {e}", what());
                        continue;
                    }
                };
                cx.inner(1);
                cx.nontrivial_if(p.steps.len() > 1);
                cx.label(["simple", "compounded", "continuous", "simple then compounded", "compounded then simple"][disc.0 .1 as usize]);
                cx.label_if(flows.iter().any(|f| f.ex_on(settle) && f.pay() > settle), "a flow trades ex-coupon");
                cx.label_if(flows.iter().any(|f| f.pay() == settle), "a flow on the settlement date");
                cx.label_if(disc.1 == 18, "Act/Act ISMA");
                ensure!((got - p.npv).abs() <= 1e-9 * (p.size + 1.0), "{}: {got}, expected {}", what(), p.npv);
                if matches!(disc.1, 0 | 2 | 14) && matches!(disc.0 .1, 1 | 2) {
                    let mut sum = 0.0;
                    for f in &flows {
                        let left = if *inc { f.pay() >= settle } else { f.pay() > settle };
                        if left && !f.ex_on(settle) {
                            let t = ref_fraction(disc.1, npv_date, f.pay(), term);
                            let g = growth(disc.0 .1, FREQS[disc.0 .2].1, disc.0 .0, t).unwrap();
                            sum += f.amount().unwrap() / g;
                        }
                    }
                    cx.label("closed form");
                    ensure!((got - sum).abs() <= 1e-8 * (p.size + 1.0), "{}: {got}, the discounted flows add up to {sum}", what());
                }
                if p.steps.is_empty() {
                    ensure!(got == 0.0, "{}: {got} with nothing left to pay", what());
                }
                // by value, too
                if b.extra.is_empty() && b.redemption == 0.0 {
                    let own = b.leg.build();
                    let g = call("npv", || cashflow::npv(&own, &y, *inc, date(settle), nd))?;
                    ensure!(close(g, got, 1e-12), "{}: {g} by value, {got} shared", what());
                }
            }
            ensure!(cashflow::npv(&Vec::<FixedRateCoupon>::new(), &y, false, date(30_000), Date::default()) == 0.0, "npv of no cash flows");
            Ok(())
        },
    );
    s.check(
        "linear",
        3_000,
        60_000,
        || (arb_book(), arb_disc(), arb_when(), 0.1f64..10.0),
        |(b, disc, w, k): &(Book, Disc, When, f64), cx| {
            // scaling every amount scales the value; zero rates add amounts up
            let Some((flows, m)) = b.make() else { return Ok(()) };
            let term = b.leg.term();
            let settle = when(&m, w);
            let Some(p) = pv(&flows, disc, term, false, settle, settle) else { return Ok(()) };
            let mut b2 = b.clone();
            b2.leg.notionals.iter_mut().for_each(|n| *n *= k);
            b2.redemption *= k;
            b2.extra.iter_mut().for_each(|x| x.0 *= k);
            let y = disc_rate(disc, term);
            let (l1, l2) = (b.build(&m), b2.build(&m));
            let Ok(a) = quiet(|| cashflow::npv(&l1, &y, false, date(settle), Date::default())) else { return Ok(()) };
            let c = call("npv", || cashflow::npv(&l2, &y, false, date(settle), Date::default()))?;
            cx.nontrivial_if(p.steps.len() > 1);
            ensure!((c - k * a).abs() <= 1e-9 * (k * p.size + 1.0), "flows scaled by {k} are worth {c}, not {}", k * a);
            let zero = disc_rate(&((0.0, disc.0 .1, disc.0 .2), disc.1), term);
            let z = call("npv", || cashflow::npv(&l1, &zero, false, date(settle), Date::default()))?;
            let sum: f64 = p.steps.iter().map(|s| s.0).sum();
            let size: f64 = p.steps.iter().map(|s| s.0.abs()).sum();
            ensure!((z - sum).abs() <= 1e-9 * (size + 1.0), "undiscounted flows are worth {z}, not {sum}");
            Ok(())
        },
    );
}

// ---------------------------------------------------------------------------------------- F05, F06

/// coupon bonds' flows with positive amounts
fn arb_positive() -> impl Strategy<Value = Book> + Clone {
    (arb_leg_on(arb_coupons()), (1.0f64..20.0, -3i32..4)).prop_map(|(mut leg, (redemption, e))| {
        let redemption = redemption * 10f64.powi(e);
        leg.notionals.iter_mut().for_each(|n| *n *= redemption / 10_000.0);
        for r in &mut leg.rates {
            r.0 = r.0.abs();
        }
        Book { leg, redemption, extra: vec![] }
    })
}

/// a solver accuracy from 1e-10 to 1e-6
fn arb_accuracy() -> impl Strategy<Value = f64> + Clone {
    (-10.0f64..-6.0).prop_map(|e| 10f64.powf(e))
}

pub fn f05(s: &mut Session) {
    s.rule(
        "A case is a coupon leg with a redemption (all flows positive), a convention, frequency and day \
         counter, a settlement date, a yield from 0.1% to 25%, one of three solvers, an accuracy from 1e-10 \
         to 1e-6 and a guess from 1% to 20%. The flows are priced at the yield by the reference model and the \
         yield is solved for from that price: it must come back within the accuracy and reprice the flows. \
         Non-trivial with two or more flows left. Prices of a sign the flows cannot produce must be refused.",
    );
    s.check(
        "round_trip",
        3_000,
        80_000,
        || (arb_positive(), arb_disc(), 0.001f64..0.25, arb_when(), (0u8..3, arb_accuracy(), 0.01f64..0.2), any::<bool>()),
        |(b, disc, y, w, (solver, acc, guess), inc): &(Book, Disc, f64, When, (u8, f64, f64), bool), cx| {
            let Some((flows, m)) = b.make() else { return Ok(()) };
            let term = b.leg.term();
            let settle = when(&m, w);
            let disc = ((*y, disc.0 .1, disc.0 .2), disc.1);
            let Some(p) = pv(&flows, &disc, term, *inc, settle, settle) else { return Ok(()) };
            // known finding: the search's derivative is not scaled by the price (see newton_small_price)
            let solver = &(if p.npv < 1.0 && *solver == 1 { 0 } else { *solver });
            // known finding: over a long maturity the other search stops early too (see secant_long_maturity)
            let solver = &(if *solver == 2 && p.steps.iter().map(|s| s.1).sum::<f64>() > 10.0 { 0 } else { *solver });
            // too close to the end (or with nothing left), a price says little about the yield
            let total: f64 = p.steps.iter().map(|s| s.1).sum();
            let steps = p.steps.iter().map(|s| s.1).fold(0.0f64, f64::max);
            if total < 0.02 || p.mint < 0.0 || p.npv < 1e-3 || p.slope < 1e-5 * p.gross || (disc.0 .1 != 1 && disc.0 .1 != 2 && steps > 3.0) {
                return Ok(());
            }
            let leg = call("building the leg", || b.build(&m))?;
            cx.nontrivial_if(p.steps.len() > 1);
            cx.label(["Brent", "NewtonSafe", "FiniteDifferenceNewtonSafe"][*solver as usize]);
            cx.label(["simple", "compounded", "continuous", "simple then compounded", "compounded then simple"][disc.0 .1 as usize]);
            let (dc, c, f) = (ldc(disc.1, term), comp(disc.0 .1), FREQS[disc.0 .2].0);
            macro_rules! solve {
                ($s:expr) => {
                    quiet(|| cashflow::bond_yield(&$s, &leg, p.npv, dc.clone(), c.clone(), f, *inc, date(settle), date(settle), *acc, *guess))
                };
            }
            let got = match solver {
                0 => solve!(Brent::default()),
                1 => solve!(NewtonSafe::with_max_evaluations(100)),
                _ => solve!(FiniteDifferenceNewtonSafe::default()),
            };
            let got = match got {
                Ok(g) => g,
                Err(e) => {
                    if p.mint > 0.0 && p.mint < 1e-9 {
                        return Ok(());
                    }
                    return Err(format!("yield of a price of {} settling {}: {e}", p.npv, show(settle)));
                }
            };
            // the price's own rounding moves the yield by about eps/duration, a coupon's by its notional's
            // a secant step bounds the error up to the ratio of slopes around the root
            let tol = if *solver == 2 { 10.0 } else { 2.0 } * acc + 1e-11 * (p.npv / p.slope).max(1.0) + 2e-12 * p.gross / p.slope;
            ensure!((got - y).abs() <= tol, "yield {got} found for the price {} of a yield of {y} (accuracy {acc:e})", p.npv);
            let back = call("npv", || cashflow::npv(&leg, &disc_rate(&((got, disc.0 .1, disc.0 .2), disc.1), term), *inc, date(settle), date(settle)))?;
            let slope = p.size * (total + 1.0);
            ensure!((back - p.npv).abs() <= slope * tol * 2.0, "the yield {got} found for {} reprices to {back}", p.npv);
            Ok(())
        },
    );
    s.check(
        "newton",
        2_000,
        40_000,
        || (1.0f64..1e6, 60i32..7000, 0.001f64..0.25, arb_accuracy(), 0.01f64..0.2),
        newton_one,
    );
    s.exhaust("newton_small_price", vec![(0.01f64, 3600i32, 0.05f64, 1e-6f64, 0.18f64)], newton_one);
    s.check(
        "secant",
        2_000,
        40_000,
        || (1.0f64..1e6, 60i32..3600, 0.001f64..0.25, arb_accuracy(), 0.01f64..0.2),
        secant_one,
    );
    s.exhaust("secant_long_maturity", vec![(5.0f64, 50_400i32, 0.001f64, 1e-6f64, 0.2f64)], secant_one);
    s.check(
        "refused",
        2_000,
        40_000,
        || (arb_positive(), arb_disc(), arb_when(), 0u8..3, 0.01f64..0.2, (prop_oneof![Just(0.0f64), 0.1f64..1000.0], any::<bool>(), any::<u32>())),
        |(b, disc, w, solver, guess, (price, flip, odd)): &(Book, Disc, When, u8, f64, (f64, bool, u32)), cx| {
            // positive flows have no zero or negative price, negative flows no positive one; settled
            // flows have no price at all
            let Some((flows, m)) = b.make() else { return Ok(()) };
            let mut b = b.clone();
            let settle = when(&m, w);
            let left = flows.iter().filter(|f| f.pay() > settle && !f.ex_on(settle)).count();
            let mut price = 0.0 - price;
            // coupons paid already, or not due to the buyer, have any sign
            let n = m.len();
            b.leg.notionals = (0..n).map(|i| b.leg.notionals[i.min(b.leg.notionals.len() - 1)]).collect();
            for (i, c) in m.iter().enumerate() {
                if (c.pay <= settle || c.ex_on(settle)) && (odd >> (i % 32)) & 1 == 1 {
                    b.leg.notionals[i] = -b.leg.notionals[i];
                    cx.label_if(c.pay <= settle, "past coupon of the other sign");
                    cx.label_if(c.pay > settle, "ex-coupon of the other sign");
                }
            }
            if *flip {
                b.leg.notionals.iter_mut().for_each(|n| *n = -*n);
                b.redemption = -b.redemption;
                price = 0.0 - price;
            }
            if left == 0 {
                cx.label("nothing left");
                price = if *flip { -100.0 } else { 100.0 };
            }
            let leg = call("building the leg", || b.build(&m))?;
            let term = b.leg.term();
            cx.nontrivial();
            cx.label_if(price == 0.0, "price zero");
            let (dc, c, f) = (ldc(disc.1, term), comp(disc.0 .1), FREQS[disc.0 .2].0);
            macro_rules! solve {
                ($s:expr) => {
                    quiet(|| cashflow::bond_yield(&$s, &leg, price, dc.clone(), c.clone(), f, false, date(settle), date(settle), 1e-8, *guess))
                };
            }
            let got = match solver {
                0 => solve!(Brent::default()),
                1 => solve!(NewtonSafe::with_max_evaluations(100)),
                _ => solve!(FiniteDifferenceNewtonSafe::default()),
            };
            ensure!(got.is_err(), "a yield of {got:?} for a price of {price} settling {} ({left} flows left, {})", show(settle), if *flip { "negative" } else { "positive" });
            Ok(())
        },
    );
}

/// (price, days to the payment, yield, accuracy, guess)
type One = (f64, i32, f64, f64, f64);

/// One payment in `days` days, worth `price` at the yield `y`, and solved for by NewtonSafe
fn newton_one(o: &One, cx: &Cx) -> Res {
    solve_one(&NewtonSafe::with_max_evaluations(100), o, 2.0, cx)
}

/// The same by FiniteDifferenceNewtonSafe
fn secant_one(o: &One, cx: &Cx) -> Res {
    solve_one(&FiniteDifferenceNewtonSafe::default(), o, 10.0, cx)
}

fn solve_one(solver: &impl Solver1D, &(price, days, y, acc, guess): &One, within: f64, cx: &Cx) -> Res {
    let d = date(y0(2020));
    let t = f64::from(days) / 360.0;
    let leg: CashFlowLeg = vec![Rc::new(SimpleCashFlow::new(price * (y * t).exp(), date(y0(2020) + days)))];
    cx.nontrivial();
    let got = call("bond_yield", || {
        cashflow::bond_yield(solver, &leg, price, DayCounter::actual360(), comp(2), FREQS[0].0, false, d, d, acc, guess)
    })?;
    ensure!((got - y).abs() <= within * acc + 1e-11, "yield {got} found for the price {price} of a yield of {y} (accuracy {acc:e})");
    Ok(())
}

/// The price as a function of the yield with each flow discounted over its whole time
fn price_at(steps: &[(f64, f64)], k: u8, f: i32, y: f64) -> Option<f64> {
    let (mut t, mut p) = (0.0, 0.0);
    for (a, dt) in steps {
        t += dt;
        p += a / growth(k, f, y, t)?;
    }
    Some(p)
}

pub fn f06(s: &mut Session) {
    s.rule(
        "A case is a leg with a redemption and further payments, a yield with its convention, frequency and \
         day counter and a settlement date; non-trivial with two or more flows left. The duration is compared \
         with minus the relative slope of the price, taken by central differences of a reference price \
         and, for exponential conventions, of the library's own present value.",
    );
    s.assume("Flows within rounding of one period of the mixed conventions, where the price has a kink, are skipped.");
    s.check(
        "duration",
        5_000,
        120_000,
        || (arb_book(), arb_disc(), arb_when(), any::<bool>(), option::weighted(0.2, -20i32..20)),
        |(b, disc, w, inc, at): &(Book, Disc, When, bool, Option<i32>), cx| {
            let Some((flows, m)) = b.make() else { return Ok(()) };
            let term = b.leg.term();
            let settle = when(&m, w);
            let npv_date = at.map_or(settle, |o| settle + o);
            let nd = if at.is_some() { date(npv_date) } else { Date::default() };
            let Some(p) = pv(&flows, disc, term, *inc, settle, npv_date) else { return Ok(()) };
            let (k, f, y) = (disc.0 .1, FREQS[disc.0 .2].1, disc.0 .0);
            let leg = call("building the leg", || b.build(&m))?;
            let rate = disc_rate(disc, term);
            let got = match quiet(|| cashflow::modified_duration(&leg, &rate, *inc, date(settle), nd)) {
                Ok(g) => g,
                Err(e) => {
                    ensure!(p.mint > 0.0 && p.mint < 1e-9, "modified_duration panicked: {e}");
                    return Ok(());
                }
            };
            if p.steps.is_empty() {
                ensure!(got == 0.0, "duration {got} with nothing left to pay");
                return Ok(());
            }
            let mut t = 0.0;
            let mut tmax = 0.0f64;
            for s in &p.steps {
                t += s.1;
                tmax = tmax.max(t);
                // negative simple rates: close to the time at which money is worth nothing
                if k != 1 && k != 2 && 1.0 + y * t < 0.3 {
                    return Ok(());
                }
                if k > 2 && (t * f64::from(f) - 1.0).abs() < 1e-6 {
                    return Ok(());
                }
            }
            let h = 1e-4 / (1.0 + tmax);
            let at_y = |z: f64| price_at(&p.steps, k, f, z);
            let (Some(p0), Some(pu), Some(pd)) = (at_y(y), at_y(y + h), at_y(y - h)) else { return Ok(()) };
            let size: f64 = {
                let mut t = 0.0;
                p.steps.iter().map(|(a, dt)| { t += dt; (a / growth(k, f, y, t).unwrap()).abs() }).sum()
            };
            // prices near zero have no meaningful relative slope
            if !p0.is_finite() || p0.abs() < 1e-2 * size || size == 0.0 || size > 1e12 {
                return Ok(());
            }
            cx.nontrivial_if(p.steps.len() > 1);
            cx.label(["simple", "compounded", "continuous", "simple then compounded", "compounded then simple"][k as usize]);
            cx.label_if(flows.iter().any(|f| f.ex_on(settle) && f.pay() > settle), "a flow trades ex-coupon");
            let slope = -(pu - pd) / (2.0 * h) / p0;
            let tol = 1e-5 * (1.0 + tmax) * size / p0.abs();
            ensure!((got - slope).abs() <= tol, "modified duration {got}, the price falls by {slope} (settling {})", show(settle));
            if k == 1 || k == 2 {
                let at_lib = |z: f64| quiet(|| cashflow::npv(&leg, &disc_rate(&((z, k, disc.0 .2), disc.1), term), *inc, date(settle), nd));
                if let (Ok(a), Ok(u), Ok(d)) = (at_lib(y), at_lib(y + h), at_lib(y - h)) {
                    cx.label("library price");
                    let slope = -(u - d) / (2.0 * h) / a;
                    ensure!((got - slope).abs() <= tol, "modified duration {got}, the library's price falls by {slope}");
                }
            }
            Ok(())
        },
    );
    s.check("zero", 2_000, 40_000, || (arb_disc(), arb_date(y0(1970), y1(2080)), 30i32..9000, 1.0f64..1000.0), |(disc, d, n, a): &(Disc, i32, i32, f64), cx| {
        // a single payment's duration is its time (exponential conventions), at any price
        let pay = d + n;
        let flows = [Flow::P(pay, *a)];
        let Some(p) = pv(&flows, disc, pay, false, *d, *d) else { return Ok(()) };
        let leg: CashFlowLeg = vec![Rc::new(SimpleCashFlow::new(*a, date(pay)))];
        let t = p.steps[0].1;
        let (y, f) = (disc.0 .0, f64::from(FREQS[disc.0 .2].1));
        let want = match disc.0 .1 {
            1 => t / (1.0 + y / f),
            2 => t,
            0 => t / (1.0 + y * t),
            _ => return Ok(()),
        };
        cx.nontrivial();
        let got = call("modified_duration", || cashflow::modified_duration(&leg, &disc_rate(disc, pay), false, date(*d), Date::default()))?;
        ensure!(close(got, want, 1e-9), "duration of a payment in {t} years is {got}, expected {want}");
        ensure!(cashflow::modified_duration(&Vec::<FixedRateCoupon>::new(), &disc_rate(disc, pay), false, date(*d), Date::default()) == 0.0, "duration of no cash flows");
        Ok(())
    });
}
