//! R01-R03: the interest rate algebra.
use crate::civil::{add_months, arb_date, y0, y1};
use crate::engine::*;
use crate::p_flows::{ldc, yfr, NLDC};
use crate::p_dc::{arb_two, close, counter, nul, ref_fraction, NDC};
use proptest::prelude::*;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::frequency::Frequency;
use rust_quantlib::rates::compounding::Compounding;
use rust_quantlib::rates::interestrate::InterestRate;
use serde::{Deserialize, Serialize};

pub const FREQS: [(Frequency, i32); 11] = [
    (Frequency::Annual, 1),
    (Frequency::Semiannual, 2),
    (Frequency::EveryFourthMonth, 3),
    (Frequency::Quarterly, 4),
    (Frequency::Bimonthly, 6),
    (Frequency::Monthly, 12),
    (Frequency::EveryFourthWeek, 13),
    (Frequency::Biweekly, 26),
    (Frequency::Weekly, 52),
    (Frequency::Daily, 365),
    (Frequency::OtherFrequency, 999),
];
pub fn comp(k: u8) -> Compounding {
    match k {
        0 => Compounding::Simple,
        1 => Compounding::Compounded,
        2 => Compounding::Continuous,
        3 => Compounding::SimpleThenCompounded,
        _ => Compounding::CompoundedThenSimple,
    }
}

/// The growth of one unit over t years, by definition. `None` within rounding of the switch of the
/// mixed conventions.
pub fn growth(k: u8, f: i32, r: f64, t: f64) -> Option<f64> {
    let fr = f64::from(f);
    let simple = 1.0 + r * t;
    let compounded = if r == 0.0 { 1.0 } else { (fr * t * (r / fr).ln_1p()).exp() };
    let edge = t * fr;
    match k {
        0 => Some(simple),
        1 => Some(compounded),
        2 => Some((r * t).exp()),
        _ if (edge - 1.0).abs() < 1e-12 => Some(simple), // both agree at one period
        3 => Some(if edge < 1.0 { simple } else { compounded }),
        _ => Some(if edge < 1.0 { compounded } else { simple }),
    }
}

/// (rate, compounding, frequency index, day counter)
type RateSpec = (f64, u8, usize);

pub fn arb_rate() -> impl Strategy<Value = f64> + Clone {
    prop_oneof![2 => Just(0.0f64), 20 => -0.2f64..0.5, 8 => -0.02f64..0.08, 1 => 0.5f64..3.0, 1 => (1i32..4).prop_map(f64::from)]
}
fn arb_spec() -> impl Strategy<Value = RateSpec> + Clone {
    (arb_rate(), 0u8..5, 0usize..11)
}
/// times, with whole numbers of periods of the frequency mixed in
fn arb_time() -> impl Strategy<Value = (f64, u8)> + Clone {
    (prop_oneof![2 => Just(0.0f64), 12 => 0.0f64..3.0, 6 => 0.0f64..40.0, 1 => (0i32..60).prop_map(f64::from), 1 => 0.0f64..100.0], 0u8..8)
}
fn time(t: (f64, u8), f: i32) -> f64 {
    match t.1 {
        0 => 1.0 / f64::from(f),
        1 => (t.0 * f64::from(f)).round() / f64::from(f),
        2 => (t.0 / 3.0) / f64::from(f),
        _ => t.0,
    }
}
fn rate(s: &RateSpec, dc: DayCounter) -> InterestRate {
    InterestRate::new(s.0, dc, comp(s.1), FREQS[s.2].0)
}

/// An interval and a reference period around, before or after it, and two day counters of which at
/// least one looks at the period
#[derive(Clone, Debug, Serialize, Deserialize)]
struct RefCase {
    rs: i32,
    months: i32,
    from: i32,
    to: i32,
    other: u8,
    which: u8,
    term: i32,
}
fn arb_ref() -> impl Strategy<Value = RefCase> + Clone {
    (
        arb_date(y0(1930), y1(2150)),
        prop_oneof![Just(1i32), Just(2), Just(3), Just(4), Just(6), Just(12)],
        (0.0f64..1.0, 0.0f64..1.0, prop_oneof![5 => Just(0i32), 1 => -500i32..0, 1 => 0i32..800]),
        (0..NLDC, 0u8..3, 100i32..20_000),
    )
        .prop_map(|(rs, months, (u, v, out), (other, which, term))| {
            let len = f64::from(add_months(rs, months) - rs);
            let (mut from, mut to) = (rs + (u.min(v) * len) as i32, rs + (u.max(v) * len).ceil() as i32);
            if out < 0 { from += out } else { to += out }
            RefCase { rs, months, from, to, other, which, term: (from + term).min(109_000) }
        })
}
impl RefCase {
    /// day counters of the two sides
    fn counters(&self) -> (u8, u8) {
        match self.which {
            0 => (18, 18),
            1 => (18, self.other),
            _ => (self.other, 18),
        }
    }
    fn re(&self) -> i32 {
        add_months(self.rs, self.months)
    }
    /// the time by a day counter, where it is positive
    fn time(&self, k: u8) -> Option<f64> {
        yfr(k, self.from, self.to, self.rs, self.re(), self.term).filter(|t| *t > 0.001 && *t < 60.0)
    }
}

fn day(s: i32) -> Date {
    crate::civil::date(s)
}

pub fn r01(s: &mut Session) {
    s.rule(
        "A case is a rate from -20% to 300%, one of the five compounding conventions, one of eleven \
         frequencies and a time up to 100 years (whole periods and fractions of the first period mixed \
         in), or a pair of dates and one of 18 day counters, or an interval with a reference period and Actual/Actual (ISMA); non-trivial when the rate is not zero and \
         the time is positive. Factors are compared with the definition of the convention computed by \
         another formula.",
    );
    s.check("factor", 20_000, 500_000, || (arb_spec(), arb_time(), arb_time()), |(sp, t0, t1), cx| {
        let (_, f) = FREQS[sp.2];
        let (t, u) = (time(*t0, f), time(*t1, f));
        let ir = call("InterestRate::new", || rate(sp, DayCounter::actual360()))?;
        let Some(want) = growth(sp.1, f, sp.0, t) else { return Ok(()) };
        if want <= 1e-3 {
            return Ok(());
        }
        cx.nontrivial_if(sp.0 != 0.0 && t > 0.0);
        cx.label(["simple", "compounded", "continuous", "simple then compounded", "compounded then simple"][sp.1 as usize]);
        // the rate per period carries a rounding, once for each period
        let tol = 1e-11 + 1e-15 * f64::from(f) * (t + u);
        let c = call("compound_factor", || ir.compound_factor(t))?;
        ensure!(close(c, want, tol), "compound factor over {t} is {c}, expected {want}");
        let d = call("discount_factor", || ir.discount_factor(t))?;
        ensure!((d * want - 1.0).abs() <= tol, "discount factor over {t} is {d}, expected {}", 1.0 / want);
        let zero = call("compound_factor", || ir.compound_factor(0.0))?;
        ensure!(zero == 1.0 && ir.discount_factor(0.0) == 1.0, "compound factor over no time is {zero}");
        // growth grows with time when the rate is positive and shrinks when it is negative, within one
        // convention
        let cu = call("compound_factor", || ir.compound_factor(u))?;
        let p = 1.0 / f64::from(f);
        if sp.1 < 3 || (t - p) * (u - p) > 0.0 {
            let lo = if t < u { (c, cu) } else { (cu, c) };
            let grew = (lo.1 - lo.0) * sp.0.signum();
            ensure!(t == u || grew >= -tol * c.max(cu), "rate {} grows {} over {} but {} over {}", sp.0, c, t, cu, u);
        }
        if sp.1 == 1 || sp.1 == 2 {
            let both = call("compound_factor", || ir.compound_factor(t + u))?;
            ensure!((both / (c * cu) - 1.0).abs() <= tol, "factor over {t}+{u} is {both}, not the product {}", c * cu);
        }
        if sp.1 == 0 {
            let both = call("compound_factor", || ir.compound_factor(t + u))?;
            ensure!(close(both - 1.0, c - 1.0 + cu - 1.0, 1e-11), "simple interest over {t}+{u} does not add up");
        }
        // the plain parts of the mixed conventions
        let want_f = if sp.1 == 0 || sp.1 == 2 { Frequency::NoFrequency } else { FREQS[sp.2].0 };
        ensure_eq!(call("frequency", || ir.frequency())?, want_f, "frequency");
        ensure_eq!(ir.compounding, comp(sp.1), "compounding");
        ensure!(ir.rate == sp.0, "rate {} kept as {}", sp.0, ir.rate);
        if t > 0.0 {
            ensure!(quiet(|| ir.compound_factor(-t)).is_err(), "compound factor over {} accepted", -t);
            ensure!(quiet(|| ir.discount_factor(-t)).is_err(), "discount factor over {} accepted", -t);
        }
        Ok(())
    });
    s.check(
        "between_dates",
        12_000,
        300_000,
        || (arb_spec(), arb_two(), 0u8..NDC, 100i32..20_000),
        |(sp, (a, b), k, term), cx| {
            let ((a, b), k, term) = ((*a.min(b), *a.max(b)), *k, (a.min(b) + term).min(109_000));
            let ir = rate(sp, counter(k, term));
            let (f, r) = (FREQS[sp.2].1, sp.0);
            let t = ref_fraction(k, a, b, term);
            if t < 0.0 || t > 60.0 {
                return Ok(());
            }
            let Some(want) = growth(sp.1, f, r, t) else { return Ok(()) };
            if want <= 1e-3 {
                return Ok(());
            }
            cx.nontrivial_if(r != 0.0 && t > 0.0);
            let (d1, d2) = (day(a), day(b));
            let c = call("compound_factor_between_dates", || ir.compound_factor_between_dates(&d1, &d2, &nul(), &nul()))?;
            // a mixed convention may switch within rounding of one period, where both parts agree
            ensure!(close(c, want, 1e-10), "compound factor from {d1:?} to {d2:?} is {c}, expected {want}");
            let d = call("discount_factor_between_dates", || ir.discount_factor_between_dates(&d1, &d2, &nul(), &nul()))?;
            ensure!((d * want - 1.0).abs() <= 1e-10, "discount factor from {d1:?} to {d2:?} is {d}, expected {}", 1.0 / want);
            if a < b {
                ensure!(
                    quiet(|| ir.compound_factor_between_dates(&d2, &d1, &nul(), &nul())).is_err()
                        && quiet(|| ir.discount_factor_between_dates(&d2, &d1, &nul(), &nul())).is_err(),
                    "dates in the wrong order accepted"
                );
            }
            Ok(())
        },
    );
    s.check("reference_period", 8_000, 200_000, || (arb_spec(), arb_ref()), |(sp, rc): &(RateSpec, RefCase), cx| {
        let Some(t) = rc.time(18) else { return Ok(()) };
        let Some(want) = growth(sp.1, FREQS[sp.2].1, sp.0, t) else { return Ok(()) };
        if want <= 1e-3 {
            return Ok(());
        }
        let ir = rate(sp, ldc(18, rc.term));
        let (d1, d2, rs, re) = (day(rc.from), day(rc.to), day(rc.rs), day(rc.re()));
        cx.nontrivial_if(sp.0 != 0.0);
        let c = call("compound_factor_between_dates", || ir.compound_factor_between_dates(&d1, &d2, &rs, &re))?;
        ensure!(close(c, want, 1e-10), "compound factor from {d1:?} to {d2:?} in {rs:?} to {re:?} is {c}, expected {want}");
        let d = call("discount_factor_between_dates", || ir.discount_factor_between_dates(&d1, &d2, &rs, &re))?;
        ensure!((d * want - 1.0).abs() <= 1e-10, "discount factor from {d1:?} to {d2:?} in {rs:?} to {re:?} is {d}, expected {}", 1.0 / want);
        Ok(())
    });
    s.check("construction", 2_000, 20_000, || (arb_rate(), 0u8..5, 0usize..13), |&(r, k, f), cx| {
        let (fr, bad) = match f {
            11 => (Frequency::NoFrequency, true),
            12 => (Frequency::Once, true),
            f => (FREQS[f].0, false),
        };
        cx.nontrivial();
        let got = quiet(|| InterestRate::new(r, DayCounter::actual360(), comp(k), fr));
        let needs = matches!(k, 1 | 3 | 4);
        cx.label_if(bad && needs, "refused");
        ensure_eq!(got.is_err(), bad && needs, "{:?} with frequency {fr:?} refused", comp(k));
        Ok(())
    });
}

pub fn r02(s: &mut Session) {
    s.rule(
        "A case is a growth factor from 0.05 to 20, a convention, a frequency and a time, or dates and a \
         day counter, with a reference period in one check, or factors within 1e-14 to 0.1 of one; non-trivial when the factor is not one. The implied rate must give the factor back \
         when it is compounded, and keep the convention, frequency and day counter asked for.",
    );
    r02_ref(s);
    s.check(
        "implied",
        20_000,
        500_000,
        || (arb_spec(), prop_oneof![1 => Just(1.0f64), 10 => 0.05f64..20.0, 6 => 0.9f64..1.2], arb_time()),
        |(sp, c, t), cx| {
            let (fr, f) = FREQS[sp.2];
            let t = time(*t, f);
            let any = rate(&(0.05, 2, 0), DayCounter::actual360());
            // beyond e^8 a period the rate cannot hold the factor in double precision
            if t > 0.0 && c.ln().abs() > 8.0 * t * f64::from(f) {
                return Ok(());
            }
            let dc = DayCounter::bond_basis();
            let got = quiet(|| any.implied_rate(*c, &dc, &comp(sp.1), fr, t));
            if *c != 1.0 && t <= 0.0 {
                ensure!(got.is_err(), "a factor of {c} over no time implies a rate of {}", got.unwrap().rate);
                return Ok(());
            }
            let ir = got.map_err(|e| format!("implied_rate panicked: {e}"))?;
            cx.nontrivial_if(*c != 1.0);
            cx.label_if(t * f64::from(f) < 1.0, "within the first period");
            if *c == 1.0 {
                ensure!(ir.rate == 0.0, "a factor of one implies a rate of {}", ir.rate);
            }
            if t < 1e-6 {
                return Ok(());
            }
            let back = call("compound_factor", || ir.compound_factor(t))?;
            ensure!((back / c - 1.0).abs() <= 1e-9, "the rate {} implied by a factor of {c} over {t} grows to {back}", ir.rate);
            if let Some(w) = growth(sp.1, f, ir.rate, t) {
                // the edge of the mixed conventions apart, the definition agrees too
                ensure!((w / c - 1.0).abs() <= 1e-9, "the rate {} implied by a factor of {c} over {t} should grow to {w}", ir.rate);
            }
            ensure_eq!(ir.compounding, comp(sp.1), "compounding of the implied rate");
            let want_f = if sp.1 == 0 || sp.1 == 2 { Frequency::NoFrequency } else { fr };
            ensure_eq!(ir.frequency(), want_f, "frequency of the implied rate");
            ensure_eq!(ir.daycounter.name(), dc.name(), "day counter of the implied rate");
            for bad in [0.0, -c] {
                ensure!(quiet(|| any.implied_rate(bad, &dc, &comp(sp.1), fr, t)).is_err(), "a factor of {bad} accepted");
            }
            ensure!(quiet(|| any.implied_rate(*c, &dc, &comp(sp.1), fr, -t)).is_err(), "a time of {} accepted", -t);
            Ok(())
        },
    );
    // next to no growth is not none
    s.check(
        "near_one",
        8_000,
        200_000,
        || (arb_spec(), any::<bool>(), 1.0f64..14.0, prop_oneof![arb_time(), (-5.0f64..0.0).prop_map(|e| (10f64.powf(e), 3u8))]),
        |(sp, up, e, t), cx| {
            let (fr, f) = FREQS[sp.2];
            let c = if *up { 1.0 + 10f64.powf(-e) } else { 1.0 - 10f64.powf(-e) };
            let t = time(*t, f);
            let any = rate(&(0.05, 2, 0), DayCounter::actual360());
            if t < 1e-6 || c == 1.0 || c.ln().abs() > 8.0 * t * f64::from(f) {
                return Ok(());
            }
            cx.nontrivial();
            let ir = call("implied_rate", || any.implied_rate(c, &DayCounter::bond_basis(), &comp(sp.1), fr, t))?;
            let back = call("compound_factor", || ir.compound_factor(t))?;
            ensure!((back - c).abs() <= 1e-14 * (1.0 + t * f64::from(f)), "the rate {} implied by a factor of {c} over {t} grows to {back}", ir.rate);
            Ok(())
        },
    );
    s.check(
        "between_dates",
        10_000,
        250_000,
        || (arb_spec(), 0.1f64..10.0, arb_two(), 0u8..NDC, 100i32..20_000),
        |(sp, c, (a, b), k, term), cx| {
            let ((a, b), k, term) = ((*a.min(b), *a.max(b)), *k, (a.min(b) + term).min(109_000));
            let t = ref_fraction(k, a, b, term);
            if t <= 0.001 || t > 100.0 || c.ln().abs() > 8.0 * t * f64::from(FREQS[sp.2].1) {
                return Ok(());
            }
            let dc = counter(k, term);
            let (fr, f) = FREQS[sp.2];
            let any = rate(&(0.05, 2, 0), DayCounter::actual360());
            let (d1, d2) = (day(a), day(b));
            let ir = call("implied_rate_between_dates", || {
                any.implied_rate_between_dates(*c, &dc, &comp(sp.1), fr, &d1, &d2, &nul(), &nul())
            })?;
            cx.nontrivial();
            let back = call("compound_factor_between_dates", || ir.compound_factor_between_dates(&d1, &d2, &nul(), &nul()))?;
            ensure!((back / c - 1.0).abs() <= 1e-9, "the rate {} implied by {c} from {d1:?} to {d2:?} grows to {back}", ir.rate);
            let w = growth(sp.1, f, ir.rate, t).unwrap_or(*c);
            ensure!((w / c - 1.0).abs() <= 1e-8, "the rate {} implied by {c} from {d1:?} to {d2:?} should grow to {w}", ir.rate);
            ensure_eq!(ir.daycounter.name(), dc.name(), "day counter of the implied rate");
            ensure!(
                a == b || quiet(|| any.implied_rate_between_dates(*c, &dc, &comp(sp.1), fr, &d2, &d1, &nul(), &nul())).is_err(),
                "dates in the wrong order accepted"
            );
            Ok(())
        },
    );
}

fn r02_ref(s: &mut Session) {
    s.check("reference_period", 8_000, 200_000, || (arb_spec(), 0.1f64..10.0, arb_ref()), |(sp, c, rc): &(RateSpec, f64, RefCase), cx| {
        let (fr, f) = FREQS[sp.2];
        let Some(t) = rc.time(18) else { return Ok(()) };
        if c.ln().abs() > 8.0 * t * f64::from(f) {
            return Ok(());
        }
        let dc = ldc(18, rc.term);
        let any = rate(&(0.05, 2, 0), DayCounter::actual360());
        let (d1, d2, rs, re) = (day(rc.from), day(rc.to), day(rc.rs), day(rc.re()));
        let ir = call("implied_rate_between_dates", || any.implied_rate_between_dates(*c, &dc, &comp(sp.1), fr, &d1, &d2, &rs, &re))?;
        cx.nontrivial();
        let back = call("compound_factor_between_dates", || ir.compound_factor_between_dates(&d1, &d2, &rs, &re))?;
        ensure!((back / c - 1.0).abs() <= 1e-9, "the rate {} implied by {c} from {d1:?} to {d2:?} in {rs:?} to {re:?} grows to {back}", ir.rate);
        let w = growth(sp.1, f, ir.rate, t).unwrap_or(*c);
        ensure!((w / c - 1.0).abs() <= 1e-8, "the rate {} implied by {c} from {d1:?} to {d2:?} in {rs:?} to {re:?} should grow to {w}", ir.rate);
        Ok(())
    });
}

fn r03_ref(s: &mut Session) {
    s.check(
        "reference_period",
        8_000,
        200_000,
        || (arb_spec(), 0u8..5, 0usize..11, arb_ref()),
        |(sp, k2, f2, rc): &(RateSpec, u8, usize, RefCase), cx| {
            let (c1, c2) = rc.counters();
            let (Some(t1), Some(t2)) = (rc.time(c1), rc.time(c2)) else { return Ok(()) };
            let Some(want) = growth(sp.1, FREQS[sp.2].1, sp.0, t1) else { return Ok(()) };
            if want <= 1e-2 || want.ln().abs() > 8.0 * t2 * f64::from(FREQS[*f2].1) {
                return Ok(());
            }
            let ir = rate(sp, ldc(c1, rc.term));
            let (fr2, n2) = FREQS[*f2];
            let (d1, d2, rs, re) = (day(rc.from), day(rc.to), day(rc.rs), day(rc.re()));
            cx.nontrivial_if(sp.0 != 0.0);
            cx.label_if(t1 != t2, "day counters disagree");
            let dc2 = ldc(c2, rc.term);
            let eq = call("equivalent_rate_between_dates", || ir.equivalent_rate_between_dates(&dc2, &comp(*k2), fr2, &d1, &d2, &rs, &re))?;
            let own = call("compound_factor_between_dates", || ir.compound_factor_between_dates(&d1, &d2, &rs, &re))?;
            ensure!((own / want - 1.0).abs() <= 1e-9, "rate {} grows to {own} from {d1:?} to {d2:?} in {rs:?} to {re:?}, expected {want}", sp.0);
            let c = call("compound_factor_between_dates", || eq.compound_factor_between_dates(&d1, &d2, &rs, &re))?;
            ensure!((c / own - 1.0).abs() <= 1e-9, "rate {} is not equivalent to {} from {d1:?} to {d2:?} in {rs:?} to {re:?}: {c} against {own}", eq.rate, sp.0);
            if let Some(w) = growth(*k2, n2, eq.rate, t2) {
                ensure!((w / want - 1.0).abs() <= 1e-8, "rate {} is not equivalent to {} from {d1:?} to {d2:?} in {rs:?} to {re:?}: {w} against {want}", eq.rate, sp.0);
            }
            Ok(())
        },
    );
}

pub fn r03(s: &mut Session) {
    s.rule(
        "A case is a rate with its convention and frequency, a second convention and frequency, and a \
         time, or dates and two day counters (with a reference period in one check); non-trivial when the rate is not zero and the conventions \
         differ. The equivalent rate must grow one unit to the same amount over the same time, in its \
         own convention and day counter, and converting back must give the first rate.",
    );
    r03_ref(s);
    s.check("time", 20_000, 500_000, || (arb_spec(), 0u8..5, 0usize..11, arb_time()), |(sp, k2, f2, t), cx| {
        let (fr2, n2) = FREQS[*f2];
        let t = time(*t, FREQS[sp.2].1);
        let ir = rate(sp, counter(2, 0));
        let Some(want) = growth(sp.1, FREQS[sp.2].1, sp.0, t) else { return Ok(()) };
        if t < 1e-4 || want <= 1e-2 || want.ln().abs() > 8.0 * t * f64::from(n2) {
            return Ok(());
        }
        cx.nontrivial_if(sp.0 != 0.0 && (sp.1 != *k2 || sp.2 != *f2));
        let eq = call("equivalent_rate", || ir.equivalent_rate(&comp(*k2), fr2, t))?;
        let c = call("compound_factor", || eq.compound_factor(t))?;
        ensure!((c / want - 1.0).abs() <= 1e-9, "rate {} is not equivalent to {} over {t}: {c} against {want}", eq.rate, sp.0);
        if let Some(w) = growth(*k2, n2, eq.rate, t) {
            ensure!((w / want - 1.0).abs() <= 1e-9, "rate {} is not equivalent to {} over {t}: {w} against {want}", eq.rate, sp.0);
        }
        ensure_eq!(eq.compounding, comp(*k2), "compounding of the equivalent rate");
        let want_f = if *k2 == 0 || *k2 == 2 { Frequency::NoFrequency } else { fr2 };
        ensure_eq!(eq.frequency(), want_f, "frequency of the equivalent rate");
        ensure_eq!(eq.daycounter.name(), ir.daycounter.name(), "day counter of the equivalent rate");
        let back = call("equivalent_rate", || eq.equivalent_rate(&comp(sp.1), FREQS[sp.2].0, t))?;
        ensure!((back.rate - sp.0).abs() * t <= 1e-8, "{} converted to {} and back is {}", sp.0, eq.rate, back.rate);
        Ok(())
    });
    s.check(
        "dates",
        12_000,
        300_000,
        || {
            let dcs = (0u8..NDC, prop_oneof![3 => 0u8..NDC, 1 => Just(NDC)], prop_oneof![3 => 100i32..20_000, 1 => Just(0)], prop_oneof![2 => Just(0i32), 1 => -40i32..40_000])
                .prop_map(|(c1, c2, t1, t2)| if c2 < NDC { (c1, c2, t1, t2) } else { (10 + c1 % 2, 10 + c1 % 2, t1, t2) });
            (arb_spec(), 0u8..5, 0usize..11, arb_two(), dcs)
        },
        |(sp, k2, f2, (a, b), (c1, c2, term, apart)), cx| {
            let (a, b) = (*a.min(b), *a.max(b));
            // day counters of one name can have different termination dates; 0 stands for the end itself
            let term = if *term == 0 { b } else { (a + term).min(109_000) };
            let term2 = if *apart == 0 { term } else { (term + apart).clamp(100, 109_000) };
            cx.label_if(c1 == c2 && term != term2, "one convention with two termination dates");
            let (t1, t2) = (ref_fraction(*c1, a, b, term), ref_fraction(*c2, a, b, term2));
            if t1 <= 0.001 || t2 <= 0.001 || t1 > 60.0 || t2 > 60.0 {
                return Ok(());
            }
            let Some(want) = growth(sp.1, FREQS[sp.2].1, sp.0, t1) else { return Ok(()) };
            if want <= 1e-2 || want.ln().abs() > 8.0 * t2 * f64::from(FREQS[*f2].1) {
                return Ok(());
            }
            let (dc1, dc2) = (counter(*c1, term), counter(*c2, term2));
            let ir = rate(sp, dc1);
            let (fr2, n2) = FREQS[*f2];
            let (d1, d2) = (day(a), day(b));
            cx.nontrivial_if(sp.0 != 0.0 && t1 != t2);
            cx.label_if(t1 != t2, "day counters disagree");
            let eq = call("equivalent_rate_between_dates", || {
                ir.equivalent_rate_between_dates(&dc2, &comp(*k2), fr2, &d1, &d2, &nul(), &nul())
            })?;
            let c = call("compound_factor_between_dates", || eq.compound_factor_between_dates(&d1, &d2, &nul(), &nul()))?;
            let own = call("compound_factor_between_dates", || ir.compound_factor_between_dates(&d1, &d2, &nul(), &nul()))?;
            ensure!((own / want - 1.0).abs() <= 1e-9, "rate {} grows to {own} from {d1:?} to {d2:?}, expected {want}", sp.0);
            ensure!((c / own - 1.0).abs() <= 1e-9, "rate {} is not equivalent to {} from {d1:?} to {d2:?}: {c} against {own}", eq.rate, sp.0);
            if let Some(w) = growth(*k2, n2, eq.rate, t2) {
                ensure!((w / want - 1.0).abs() <= 1e-8, "rate {} is not equivalent to {} from {d1:?} to {d2:?}: {w} against {want}", eq.rate, sp.0);
            }
            ensure_eq!(eq.daycounter.name(), dc2.name(), "day counter of the equivalent rate");
            ensure_eq!(eq.compounding, comp(*k2), "compounding of the equivalent rate");
            ensure!(
                a == b || quiet(|| ir.equivalent_rate_between_dates(&dc2, &comp(*k2), fr2, &d2, &d1, &nul(), &nul())).is_err(),
                "dates in the wrong order accepted"
            );
            Ok(())
        },
    );
}
