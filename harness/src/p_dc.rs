use proptest::prelude::*;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::daycounters::actual360::Actual360;
use rust_quantlib::datetime::daycounters::actual366::Actual366;
use rust_quantlib::datetime::daycounters::one::One;
use rust_quantlib::datetime::daycounters::simple::Simple;
use rust_quantlib::datetime::daycounters::thirty365::Thirty365;

use crate::civil::*;
use crate::engine::*;
use crate::p_cal::{CalSpec, CONV};
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention;
use crate::p_sched::{arb_bf, SchedSpec};

pub fn nul() -> Date {
    Date::default()
}
pub fn close(a: f64, b: f64, rel: f64) -> bool {
    a == b || (a - b).abs() <= rel * a.abs().max(b.abs()).max(1.0)
}
#[macro_export]
macro_rules! ensure_close {
    ($got:expr, $want:expr, $rel:expr, $($fmt:tt)*) => {{
        let (g, w): (f64, f64) = ($got, $want);
        if !crate::p_dc::close(g, w, $rel) {
            return Err(format!("{}: got {g:?}, expected {w:?}", format!($($fmt)*)));
        }
    }};
}

fn yf(dc: &DayCounter, a: i32, b: i32) -> f64 {
    dc.year_fraction(&date(a), &date(b), &nul(), &nul())
}

/// Day counters that need neither a schedule nor reference dates
pub const NDC: u8 = 18;
pub fn counter(k: u8, term: i32) -> DayCounter {
    match k {
        0 => DayCounter::actual360(),
        1 => DayCounter::Actual360(Actual360::with_last_day(true)),
        2 => DayCounter::Actual366(Actual366::new()),
        3 => DayCounter::Actual366(Actual366::with_last_day(true)),
        4 => DayCounter::usa(),
        5 => DayCounter::isma(),
        6 => DayCounter::bond_basis(),
        7 => DayCounter::european(),
        8 => DayCounter::euro_bond_basis(),
        9 => DayCounter::italian(),
        10 => DayCounter::isda(date(term)),
        11 => DayCounter::german(date(term)),
        12 => DayCounter::nasd(),
        13 => DayCounter::Thirty365(Thirty365::new()),
        14 => DayCounter::actual_actual_isda(),
        15 => DayCounter::actual_actual_afb(),
        16 => DayCounter::simple(),
        _ => DayCounter::One(One::new()),
    }
}
pub const DCN: [&str; 18] = [
    "Act/360", "Act/360 inc", "Act/366", "Act/366 inc", "30/360 US", "30/360 ISMA", "30/360 Bond Basis", "30E/360", "30E/360 Eurobond",
    "30/360 Italian", "30E/360 ISDA", "30E/360 German", "30/360 NASD", "30/365", "Act/Act ISDA", "Act/Act AFB", "Simple", "1/1",
];

/// the 30/360 day count by convention, from the market definitions
pub fn thirty(k: u8, a: i32, b: i32, term: i32) -> i32 {
    let ((y1, m1, d1), (y2, m2, d2)) = (ymd(a), ymd(b));
    let (mut d1, mut d2, mut m2, m1) = (d1 as i32, d2 as i32, m2 as i32, m1 as i32);
    let feb_end = |s: i32| ymd(s).1 == 2 && is_eom(s);
    match k {
        // US: month-end February start is a 30th, and so is a February end after it
        4 => {
            let start30 = d1 >= 30;
            if d2 == 31 && start30 { d2 = 30 }
            if feb_end(a) && feb_end(b) { d2 = 30 }
            if feb_end(a) || d1 == 31 { d1 = 30 }
        }
        5 | 6 => {
            if d2 == 31 && d1 >= 30 { d2 = 30 }
            d1 = d1.min(30);
        }
        7 | 8 => {
            d1 = d1.min(30);
            d2 = d2.min(30);
        }
        9 => {
            let f = |d: i32, m: i32| if m == 2 && d > 27 { 30 } else { d.min(30) };
            (d1, d2) = (f(d1, m1), f(d2, m2));
        }
        10 | 11 => {
            if d1 == 31 || feb_end(a) { d1 = 30 }
            if d2 == 31 || (feb_end(b) && b != term) { d2 = 30 }
        }
        12 => {
            if d2 == 31 {
                if d1 >= 30 { d2 = 30 } else { d2 = 1; m2 += 1 }
            }
            d1 = d1.min(30);
        }
        _ => {}
    }
    360 * (y2 - y1) + 30 * (m2 - m1) + d2 - d1
}

/// days in each calendar year over the length of that year
pub fn act_isda(a: i32, b: i32) -> f64 {
    if a > b {
        return -act_isda(b, a);
    }
    (ymd(a).0..=ymd(b).0)
        .map(|y| {
            let (s, e) = (serial(y, 1, 1), serial(y, 12, 31) + 1);
            (b.min(e) - a.max(s)).max(0) as f64 / (e - s) as f64
        })
        .sum()
}

/// whole years back from b, then the rest over 366 if it contains a 29 February and 365 otherwise
pub fn afb(a: i32, b: i32) -> f64 {
    if a > b {
        return -afb(b, a);
    }
    let (y, m, d) = ymd(b);
    let back = |k: i32| if k == 0 { b } else if m == 2 && d >= 28 { eom(serial(y - k, 2, 1)) } else { serial(y - k, m, d) };
    let k = (0..=y - ymd(a).0 + 1).filter(|k| back(*k) >= a).max().unwrap();
    let rest = back(k);
    let feb29 = (ymd(a).0..=ymd(rest).0).any(|y| leap(y) && { let f = serial(y, 2, 29); f >= a && f < rest });
    k as f64 + (rest - a) as f64 / if feb29 { 366.0 } else { 365.0 }
}

pub fn simple(a: i32, b: i32) -> f64 {
    let ((y1, m1, d1), (y2, m2, d2)) = (ymd(a), ymd(b));
    let whole = d1 == d2 || (d1 > d2 && is_eom(b)) || (d1 < d2 && is_eom(a));
    if whole {
        (y2 - y1) as f64 + (m2 as f64 - m1 as f64) / 12.0
    } else {
        thirty(5, a, b, 0) as f64 / 360.0
    }
}

pub fn ref_count(k: u8, a: i32, b: i32, term: i32) -> i32 {
    match k {
        0 | 2 | 14 | 15 => b - a,
        1 | 3 => b - a + 1,
        16 => thirty(5, a, b, 0),
        17 => if b >= a { 1 } else { -1 },
        _ => thirty(k, a, b, term),
    }
}
pub fn ref_fraction(k: u8, a: i32, b: i32, term: i32) -> f64 {
    match k {
        14 => act_isda(a, b),
        15 => afb(a, b),
        16 => simple(a, b),
        17 => ref_count(k, a, b, term) as f64,
        _ => ref_count(k, a, b, term) as f64 / match k { 2 | 3 => 366.0, 13 => 365.0, _ => 360.0 },
    }
}

fn pair(cx: &Cx, k: u8, a: i32, b: i32, term: i32) -> Result<(), String> {
    let dc = counter(k, term);
    let what = || format!("{} {} to {}", DCN[k as usize], show(a), show(b));
    ensure_eq!(call(&what(), || dc.day_count(&date(a), &date(b)))?, ref_count(k, a, b, term), "days, {}", what());
    ensure_close!(call(&what(), || yf(&dc, a, b))?, ref_fraction(k, a, b, term), 1e-13, "year fraction, {}", what());
    cx.label(DCN[k as usize]);
    Ok(())
}

/// two dates: near each other or decades apart, with month ends favoured
pub fn arb_two() -> impl Strategy<Value = (i32, i32)> + Clone {
    let d = || arb_date(y0(1902), y1(2198));
    prop_oneof![
        2 => (d(), d()),
        3 => (d(), -800i32..800).prop_map(|(a, o)| (a, (a + o).clamp(y0(1902), y1(2198)))),
        2 => (d(), -120i32..120, any::<bool>()).prop_map(|(a, m, e)| {
            let b = add_months(a, m).clamp(y0(1902), y1(2198));
            (a, if e { eom(b) } else { b })
        }),
        1 => (d(), -40i32..40, -1i32..2).prop_map(|(a, y, o)| (a, (add_months(a, 12 * y) + o).clamp(y0(1902), y1(2198)))),
    ]
}

fn years_window(k: &'static [u8]) -> Vec<(i32, u8)> {
    // every day of the leap cycles around 1900, 2000 and 2100
    [1903, 1999, 2003, 2099].iter().flat_map(|y| y0(*y)..=y1(*y + 1)).flat_map(|d| k.iter().map(move |c| (d, *c))).collect()
}

fn counters(s: &mut Session, ks: &'static [u8], n: (u32, u32)) {
    s.check("pairs", n.0, n.1, move || (arb_two(), proptest::sample::select(ks), 0u8..3), |&((a, b), k, t), cx| {
        let term = match t { 0 => b, 1 => a, _ => (b + 400).min(y1(2198)) };
        pair(cx, k, a, b, term)?;
        pair(cx, k, b, a, term)?;
        cx.nontrivial_if(ymd(a).2 != ymd(b).2 && a != b);
        Ok(())
    });
    s.exhaust("every_day", years_window(ks), |&(a, k), cx| {
        for o in (1..=62).chain([89, 90, 91, 92, 180, 181, 182, 183, 184, 364, 365, 366, 367, 730, 731]) {
            pair(cx, k, a, a + o, a + o)?;
            pair(cx, k, a, a + o, a + 4000)?;
            if o < 40 {
                pair(cx, k, a, a - o, a)?;
            }
        }
        cx.inner(190);
        cx.nontrivial();
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- Y01

pub fn y01(s: &mut Session) {
    s.rule("Actual/360 and Actual/366, with and without the last day, are compared with calendar-day arithmetic on generated pairs and on every start day of eight years; order reversal and splitting are checked. Non-trivial: pairs with different days of the month; every enumerated start.");
    counters(s, &[0, 1, 2, 3], (8000, 400_000));
    s.check("split", 5000, 200_000, || (arb_two(), 0.0f64..1.0, 0u8..4), |&((a, b), f, k), cx| {
        let (a, b) = (a.min(b), a.max(b));
        let m = a + ((b - a) as f64 * f) as i32;
        let dc = counter(k, 1000);
        let last = if k & 1 == 1 { 1.0 } else { 0.0 };
        let den = if k < 2 { 360.0 } else { 366.0 };
        ensure_close!(yf(&dc, a, m) + yf(&dc, m, b), yf(&dc, a, b) + last / den, 1e-13, "{} split at {} between {} and {}", DCN[k as usize], show(m), show(a), show(b));
        ensure_close!(yf(&dc, b, a) - last / den, -(yf(&dc, a, b) - last / den), 1e-13, "{} reversed", DCN[k as usize]);
        cx.nontrivial_if(m != a && m != b);
        Ok(())
    });
    s.check("same_through_both_types", 2000, 20_000, arb_two, |&(a, b), cx| {
        for inc in [false, true] {
            let (x, y) = (Actual360::with_last_day(inc), Actual366::with_last_day(inc));
            let (p, q) = (date(a), date(b));
            ensure_eq!(x.day_count(&p, &q), y.day_count(&p, &q), "day counts of Act/360 and Act/366");
            ensure_eq!(x.year_fraction(&p, &q, &nul(), &nul()), DayCounter::Actual360(x).year_fraction(&p, &q, &p, &q), "Act/360 does not depend on reference dates");
            ensure_eq!(y.year_fraction(&p, &q, &nul(), &nul()), DayCounter::Actual366(y).year_fraction(&p, &q, &p, &q), "Act/366 does not depend on reference dates");
        }
        ensure!(DayCounter::Actual360(Actual360::new()) != DayCounter::Actual360(Actual360::with_last_day(true)), "Act/360 with and without the last day compare equal");
        cx.nontrivial();
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- Y02

pub fn y02(s: &mut Session) {
    s.rule("The 30/360 variants and 30/365 are compared with their published definitions on generated pairs in both orders and on every start day of eight years, February ends included. Non-trivial: pairs whose days of the month differ; every enumerated start.");
    counters(s, &[4, 5, 6, 7, 8, 9, 10, 11, 12, 13], (12_000, 600_000));
    s.check("months", 4000, 100_000, || (arb_date(y0(1927), y1(2170)), -300i32..300, 4u8..14), |&(a, n, k), cx| {
        // the same day n months away is 30 n days away, away from month ends
        if ymd(a).2 > 27 {
            return Ok(());
        }
        let b = add_months(a, n);
        ensure_eq!(call("day count", || counter(k, b).day_count(&date(a), &date(b)))?, 30 * n, "{}: {n} months from {}", DCN[k as usize], show(a));
        cx.nontrivial_if(n != 0);
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- Y03

pub fn y03(s: &mut Session) {
    s.rule("Actual/Actual (ISDA) is compared with the sum over calendar years of days over year length, and checked for order reversal and splitting. Non-trivial: pairs in different years.");
    counters(s, &[14], (8000, 400_000));
    s.check("split", 5000, 200_000, || (arb_two(), 0.0f64..1.0), |&((a, b), f), cx| {
        let m = a + ((b - a) as f64 * f) as i32;
        let dc = counter(14, 1000);
        ensure_close!(yf(&dc, a, m) + yf(&dc, m, b), yf(&dc, a, b), 1e-12, "Act/Act ISDA split at {} between {} and {}", show(m), show(a), show(b));
        ensure_close!(yf(&dc, b, a), -yf(&dc, a, b), 1e-13, "Act/Act ISDA reversed between {} and {}", show(a), show(b));
        cx.nontrivial_if(ymd(a).0 != ymd(b).0 && m != a && m != b);
        Ok(())
    });
    s.exhaust("whole_years", (1902..2190).collect::<Vec<i32>>(), |&y, cx| {
        for k in 1..=8 {
            ensure_close!(yf(&counter(14, 1000), serial(y, 1, 1), serial(y + k, 1, 1)), k as f64, 1e-13, "Act/Act ISDA over {k} calendar years from {y}");
        }
        cx.nontrivial();
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- Y04

/// the coupon dates the schedule implies, with its stubs replaced by the notional periods they lie in
fn quasi(sp: &SchedSpec, d: &[i32], reg: &[bool]) -> Vec<i32> {
    let cal = sp.cal.build().1;
    let roll = |s: i32, n: i32| cal.advance(s, n, sp.unit, sp.conv(), sp.eom && sp.unit >= 2);
    let n = d.len();
    let mut q = d.to_vec();
    let mut tail = vec![];
    if !reg[n - 2] {
        q[n - 1] = roll(d[n - 2], sp.n);
        if q[n - 1] < d[n - 1] {
            tail.push(roll(q[n - 1], sp.n));
        }
    }
    let mut head = vec![];
    if !reg[0] {
        q[0] = roll(d[1], -sp.n);
        if q[0] > d[0] {
            head.push(roll(q[0], -sp.n));
        }
    }
    head.extend(q);
    head.extend(tail);
    head
}

/// schedules of coupon bonds: a tenor dividing the year, short and long stubs
pub fn arb_coupons() -> impl Strategy<Value = SchedSpec> + Clone {
    (arb_bf(), prop_oneof![5 => 0usize..6, 1 => 6usize..12], 0u8..18, prop_oneof![24 => 1i32..20, 1 => 20i32..240], (0.0f64..1.0, 0u8..6), (0.0f64..1.0, 0u8..6), prop::bool::weighted(0.2)).prop_map(|(mut sp, t, market, k, (f1, k1), (f2, k2), eom_)| {
        sp.n = [1, 2, 3, 4, 6, 12, 5, 8, 18, 24, 36, 60][t];
        sp.unit = 2;
        sp.cal = CalSpec::plain(market);
        sp.eom = eom_;
        sp.rule %= 2;
        sp.tconv = sp.conv;
        let days = 30 * sp.n;
        let k = k.min(480 / sp.n).max(1);
        // regular core of k tenors, then a stub at either end: none, short or long
        let core = sp.eff.max(y0(1900) + 93 * sp.n).min(y1(2187) - 31 * k * sp.n);
        let end = add_months(core, k * sp.n);
        let stub = |f: f64, kind: u8| match kind { 0..=2 => 0, 3 => 1 + (f * (days - 8).max(1) as f64) as i32, 4 => days + 5 + (f * (days - 12).max(1) as f64) as i32, _ => 0 };
        let (s1, s2) = (stub(f1, k1), stub(f2, k2));
        sp.eff = core - s1;
        sp.term = end + s2;
        sp.first = if s1 > 0 { core } else { 0 };
        sp.ntl = if s2 > 0 { end } else { 0 };
        sp.eval = sp.eff;
        sp
    })
}

pub fn old_isma(d1: i32, d2: i32, rs: i32, re: i32) -> f64 {
    let months = |a: i32, b: i32| (12.0 * (b - a) as f64 / 365.0).round() as i32;
    let (mut s, mut e, mut m) = (rs, re, months(rs, re));
    if m == 0 {
        (s, e, m) = (d1, add_months(d1, 12), 12);
    }
    let part = |a: i32, b: i32, m: i32| (d2.min(b) - d1.max(a)).max(0) as f64 / (b - a) as f64 * m as f64 / 12.0;
    let mut sum = 0.0;
    if d2 <= e {
        // back one notional period at a time
        loop {
            sum += part(s, e, m);
            if s <= d1 {
                return sum;
            }
            (s, e) = (add_months(s, -m), s);
            m = months(s, e);
        }
    }
    sum += part(s, e, m);
    for i in 0.. {
        let (a, b) = (add_months(e, m * i), add_months(e, m * (i + 1)));
        if a >= d2 {
            return sum;
        }
        // the notional period may itself be so short that a year is used instead
        sum += if d2 >= b { m as f64 / 12.0 } else { old_isma(a, d2, a, b) };
    }
    unreachable!()
}

pub fn y04(s: &mut Session) {
    s.rule("Actual/Actual (ISMA) is compared with a sum over the notional coupon periods of generated schedules with short and long stubs, and its reference-period form with the same sum over the given reference period. Non-trivial: an interval that cuts a period or touches a stub.");
    s.assume("Schedules pay every 1, 2, 3, 4, 5, 6, 8, 12, 18, 24, 36 or 60 months, or every few days or weeks, on unmodified calendars, with stubs shorter than two tenors.");
    s.check("schedule", 6000, 300_000, || (arb_coupons(), prop::collection::vec((0.0f64..1.0, 0.0f64..1.0, 0u8..4), 1..6)), |(sp, qs), cx| {
        let Ok(sc) = quiet(|| sp.build()) else { return Ok(()) };
        let d: Vec<i32> = sc.dates().iter().map(ser).collect();
        let reg: Vec<bool> = (1..d.len()).map(|i| sc.is_regular(i)).collect();
        // a single period that is both stubs has no notional dates
        if d.len() < 2 || d.len() == 2 && !reg[0] {
            return Ok(());
        }
        let q = quasi(sp, &d, &reg);
        // stubs longer than two tenors are outside the convention
        if q.windows(2).any(|w| w[1] - w[0] < 16) || q[0] > d[0] || q[q.len() - 1] < d[d.len() - 1] {
            return Ok(());
        }
        let dc = DayCounter::actual_actual_isma(sc.clone());
        let freq = 12.0 / sp.n as f64;
        let want = |a: i32, b: i32| -> f64 {
            q.windows(2).map(|w| (b.min(w[1]) - a.max(w[0])).max(0) as f64 / ((w[1] - w[0]) as f64 * freq)).sum()
        };
        let (lo, hi) = (d[0], d[d.len() - 1]);
        cx.label_if(!reg[0], "first period irregular");
        cx.label_if(!reg[reg.len() - 1], "last period irregular");
        cx.label_if(q.len() > d.len(), "long stub");
        for &(f, g, snap) in qs {
            let a = lo + (f * (hi - lo) as f64) as i32;
            let b = lo + (g * (hi - lo) as f64) as i32;
            let a = if snap & 1 == 0 { a } else { d[(f * d.len() as f64) as usize] };
            let b = if snap & 2 == 0 { b } else { d[(g * d.len() as f64) as usize] };
            let what = || format!("Act/Act ISMA {} to {} over {} regular {:?}", show(a), show(b), shows(&d), reg);
            let w = if a <= b { want(a, b) } else { -want(b, a) };
            ensure_close!(call(&what(), || yf(&dc, a, b))?, w, 1e-12, "{}", what());
            ensure_eq!(dc.day_count(&date(a), &date(b)), b - a, "{}", what());
            cx.nontrivial_if(a != b);
        }
        // dates the schedule says nothing about are refused
        let &(f, g, _) = &qs[0];
        let (a, b) = (q[0] - 1 - (f * 400.0) as i32, q[q.len() - 1] + 1 + (g * 400.0) as i32);
        for (x, y) in [(a, hi), (lo, b), (a, b), (a, q[0]), (q[q.len() - 1], b)] {
            for (x, y) in [(x, y), (y, x)] {
                if x.min(y) >= y0(1905) {
                    ensure!(quiet(|| yf(&dc, x, y)).is_err(), "Act/Act ISMA {} to {} over {} leaves the schedule", show(x), show(y), shows(&d));
                }
            }
        }
        // a regular coupon is worth exactly one period
        for i in 0..reg.len() {
            if reg[i] {
                ensure_close!(yf(&dc, d[i], d[i + 1]), 1.0 / freq, 1e-12, "Act/Act ISMA regular period {} to {}", show(d[i]), show(d[i + 1]));
            }
        }
        Ok(())
    });
    // periods too short to tell how many make a year are shares of the year that follows
    s.check("short_tenors", 2000, 60_000, || {
        (arb_date(y0(1920), y1(2150)), prop_oneof![(1i32..3).prop_map(|n| (n, 1u8)), (3i32..16).prop_map(|n| (n, 0u8))], 2i32..30, any::<bool>(), 0.0f64..1.0, 0.0f64..1.0)
    }, |&(eff, (n, unit), k, fw, f, g), cx| {
        let term = add_unit(eff, k * n, unit);
        let sp = SchedSpec { cal: CalSpec::plain(0), eval: eff, eff, term, n, unit, conv: 4, tconv: 4, rule: u8::from(fw), eom: false, first: 0, ntl: 0 };
        let sp = SchedSpec { conv: CONV.iter().position(|c| *c == BusinessDayConvention::Unadjusted).unwrap() as u8, ..sp };
        let sp = SchedSpec { tconv: sp.conv, ..sp };
        let sc = call("schedule", || sp.build())?;
        let dc = DayCounter::actual_actual_isma(sc);
        let at = |f: f64| eff + (f * (term - eff) as f64) as i32;
        for (a, b) in [(eff, term), (at(f.min(g)), at(f.max(g))), (eff, add_unit(eff, n, unit))] {
            let what = || format!("Act/Act ISMA {} to {} over {k} periods of {n} {} from {}", show(a), show(b), ["days", "weeks"][unit as usize], show(eff));
            let y = call(&what(), || yf(&dc, a, b))?;
            let d = (b - a) as f64;
            ensure!(y >= d / 366.0 - 1e-12 && y <= d / 365.0 + 1e-12, "{}: {y} is not {d} days' share of a year", what());
            ensure_close!(call(&what(), || yf(&dc, b, a))?, -y, 1e-13, "{} reversed", what());
            cx.nontrivial_if(b > a);
        }
        Ok(())
    });
    s.check("reference_period", 8000, 400_000, || {
        (arb_date(y0(1940), y1(2100)), prop_oneof![4 => (1i32..13).prop_map(|m| (m, 0)), 1 => (0i32..13, 1i32..20), 1 => (13i32..130, -9i32..20)], prop_oneof![4 => -800i32..800, 1 => -12000i32..12000], prop_oneof![4 => 1i32..900, 1 => 1i32..12000], 0u8..4)
            .prop_map(|(s, (m, o), a, len, k)| {
                let e = (add_months(s, m) + o).max(s + 1);
                let a = match k { 0 => s, 1 => s + a.rem_euclid(e - s), _ => s + a };
                let b = if k == 2 { e } else { a + len };
                (s, e, a, b)
            })
    }, |&(rs, re, a, b), cx| {
        let dc = DayCounter::actual_actual_old_isma();
        let f = |p: i32, q: i32| quiet(|| dc.year_fraction(&date(p), &date(q), &date(rs), &date(re)));
        let what = || format!("Act/Act ISMA {} to {} with reference {} to {}", show(a), show(b), show(rs), show(re));
        if a == b {
            ensure_eq!(f(a, b)?, 0.0, "{}", what());
            return Ok(());
        }
        let (lo, hi) = (a.min(b), a.max(b));
        let short = ((12 * (re - rs)) as f64 / 365.0).round() == 0.0;
        if re <= lo || (hi > re && rs > lo && !short) {
            ensure!(f(a, b).is_err(), "{}: the reference period does not fit and must be rejected", what());
            return Ok(());
        }
        let w = old_isma(lo, hi, rs, re);
        ensure_close!(f(a, b).map_err(|e| format!("{}: {e}", what()))?, if a < b { w } else { -w }, 1e-12, "{}", what());
        cx.nontrivial_if(lo != rs || hi != re);
        cx.label_if(lo < rs, "starts before the reference period");
        cx.label_if(hi > re, "ends after the reference period");
        // without a reference period, the interval itself is the period
        let none = quiet(|| yf(&dc, lo, hi))?;
        ensure_close!(none, old_isma(lo, hi, lo, hi), 1e-12, "Act/Act ISMA {} to {} without reference", show(lo), show(hi));
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- Y05

pub fn y05(s: &mut Session) {
    s.rule("Actual/Actual (AFB) is compared with whole years counted back from the end plus the rest over 365 or 366 days. Non-trivial: pairs whose days of the month differ; every enumerated start.");
    counters(s, &[15], (12_000, 600_000));
    s.check("february", 5000, 200_000, || (1902i32..2190, -3i32..4, 0i32..30, 0i32..1200, any::<bool>()), |&(y, o, k, len, back), cx| {
        let a = serial(y, 3, 1) + o - 1;
        let b = if back { serial((y + k).min(2198), 3, 1) - (len % 4) } else { (a + len).min(y1(2198)) };
        pair(cx, 15, a, b, 1000)?;
        ensure_close!(yf(&counter(15, 1000), b, a), -yf(&counter(15, 1000), a, b), 1e-13, "Act/Act AFB reversed {} {}", show(a), show(b));
        cx.nontrivial();
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- Y06

pub fn y06(s: &mut Session) {
    s.rule("The Simple counter is compared with whole months whenever the days match or are cut by a month end and with 30/360 otherwise, and the one-for-one counter with the sign of the interval. Non-trivial: pairs whose days of the month differ; every enumerated start.");
    counters(s, &[16, 17], (10_000, 400_000));
    s.check("whole_months", 5000, 200_000, || (arb_date(y0(1922), y1(2178)), -240i32..240), |&(a, n), cx| {
        let b = add_months(a, n);
        let want = n as f64 / 12.0;
        ensure_close!(yf(&DayCounter::simple(), a, b), want, 1e-13, "Simple: {n} months from {}", show(a));
        ensure_close!(Simple::new().year_fraction(&date(b), &date(a), &nul(), &nul()), -want, 1e-13, "Simple: {n} months back to {}", show(a));
        cx.nontrivial_if(n != 0);
        Ok(())
    });
}
